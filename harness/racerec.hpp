#ifndef RACEREC_HPP
#define RACEREC_HPP
extern int race_fd;                 // where the records go
void race_start();
unsigned long race_regions();
unsigned long race_accesses();
#endif
