#pragma once
#include <pthread.h>
int sim_native_thread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
