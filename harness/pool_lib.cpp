// the thread pool's implementation on top of the deterministic scheduler
#include "sched_std.hpp"
#include <muu/core.h>
#include <muu/thread_pool.h>
#include <muu/apply_alignment.h>
#include <muu/span.h>
#include <muu/blob.h>
#include <muu/emplacement_array.h>
#include <muu/strings.h>
#include <muu/scope_guard.h>
#include <muu/math.h>
#include <muu/thread_name.h>
#include <muu/impl/std_string.h>
#include <muu/pause.h>
#include "sched_macros.hpp"
#include <../src/thread_pool.cpp>
