// Dependency stand-in (flatbuffers/base.h): only what the Larq sources use.
#ifndef STUB_FLATBUFFERS_BASE_H_
#define STUB_FLATBUFFERS_BASE_H_
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
