#ifndef ENGINE_H
#define ENGINE_H
#include "sim.h"
void simChildInit(int argc, char **argv);   // called in the forked child, before static init
void simResolve();
extern bool simMalformed;
#endif
