// Tracing is inert in the model-checking build.
#pragma once
#define PERFETTO_DEFINE_CATEGORIES(...) 
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE(...) 
#define TRACE_EVENT(...) do {} while (0)
#define TRACE_EVENT_BEGIN(...) do {} while (0)
#define TRACE_EVENT_END(...) do {} while (0)
#define TRACE_EVENT_INSTANT(...) do {} while (0)
#define TRACE_COUNTER(...) do {} while (0)
