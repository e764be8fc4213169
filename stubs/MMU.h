#ifndef MMU_H
#define MMU_H
#endif
