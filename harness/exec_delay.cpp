// the executor, with delays injected at synchronisation points
#define VF_DELAY 1
#include "exec.cpp"
