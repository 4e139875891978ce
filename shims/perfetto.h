#pragma once
#define PERFETTO_DEFINE_CATEGORIES(...)
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE(...)
#define TRACE_EVENT(...) (void)0
#define TRACE_EVENT_BEGIN(...) (void)0
#define TRACE_EVENT_END(...) (void)0
namespace perfetto { struct Category { Category(const char*) {} Category& SetDescription(const char*) { return *this; } }; }
