#ifndef SHIM_MACHINE_TYPE_H_
#define SHIM_MACHINE_TYPE_H_
typedef signed short SHORT;
typedef SHORT INT_PCM;
#endif
