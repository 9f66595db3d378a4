#pragma once
namespace nk { void c22(mc::Driver&); void c23(mc::Driver&); void c24(mc::Driver&); void c25(mc::Driver&); void c30(mc::Driver&); void c32(mc::Driver&); void c33(mc::Driver&); void c15_client(mc::Driver&); }
