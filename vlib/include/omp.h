/* stub: the generated code includes omp.h but calls no OpenMP function */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
int omp_get_thread_num(void);
#endif
