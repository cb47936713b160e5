#pragma once
#include <xa.h>
#include <string>
// What this thread is associated with at resource manager rmid ("" nothing)
std::string xalog_current(int rmid);
// The next xa_open/xa_close of this thread fails with this; true if it did
void xalog_fail(int rc);
bool xalog_failed();
