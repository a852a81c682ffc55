#pragma once
#include <rcshim_ios.h>
