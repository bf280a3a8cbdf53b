#pragma once
#define ReiserRT_Core_EXPORT
#define REISERRT_CORE_NO_EXPORT
