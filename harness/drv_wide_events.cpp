// C18: when_all/when_any over as many events as there may be
#define EVENTS_LIMIT
#include "drv_big_events.cpp"
