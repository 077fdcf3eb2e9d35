// Forced into the shipped programs: the port base comes from the environment.
#ifndef VP_PORT_H
#define VP_PORT_H
#ifdef __cplusplus
extern "C" int vp_port_base();
#endif
#endif
