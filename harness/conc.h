#pragma once
#include "mc.h"
namespace nk { void c18(mc::Driver&); void c19(mc::Driver&); void c20(mc::Driver&); void c21(mc::Driver&); void c29(mc::Driver&); }
