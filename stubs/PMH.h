#ifndef PMH_H
#define PMH_H
void select_evt_counter(unsigned int id);
void event_track(unsigned int id);
void enable_evt_counter(unsigned int id);
void reset_evt_counter(unsigned int id);
unsigned long long int read_evt_counter(void);
#endif
