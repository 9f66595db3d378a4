// Records attempts to reach outside the process while armed; nothing real is opened then.
#pragma once
#include <string>
void fs_begin();
std::string fs_end();
