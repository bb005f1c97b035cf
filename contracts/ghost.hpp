// Ghost environment: releases of one arbitrary (universally quantified) resource are counted.
#pragma once
#include "vk.hpp"
static const void *g_tracked;
static unsigned g_released;
static inline void ghost_track(const void *p) {
    g_tracked = p;
    g_released = 0;
}
static inline void ghost_release(const void *p) {
    if(p && p == g_tracked)
        ++g_released;
}
