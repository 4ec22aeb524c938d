// Instantiations only: makes the inline readers of textutils.h appear in the extracted text.
#include <strigi/textutils.h>
namespace lvc_inst {
typedef int16_t (*f16)(const char*); typedef uint16_t (*u16)(const char*); typedef int32_t (*f32)(const char*); typedef uint32_t (*u32)(const char*); typedef int64_t (*f64)(const char*); typedef uint64_t (*u64)(const char*);
typedef int16_t (*g16)(const unsigned char*); typedef uint16_t (*v16)(const unsigned char*); typedef int32_t (*g32)(const unsigned char*); typedef uint32_t (*v32)(const unsigned char*); typedef int64_t (*g64)(const unsigned char*); typedef uint64_t (*v64)(const unsigned char*);
void* use[24] = {
(void*)(f16)Strigi::readLittleEndianInt16, (void*)(u16)Strigi::readLittleEndianUInt16, (void*)(f32)Strigi::readLittleEndianInt32, (void*)(u32)Strigi::readLittleEndianUInt32, (void*)(f64)Strigi::readLittleEndianInt64, (void*)(u64)Strigi::readLittleEndianUInt64,
(void*)(f16)Strigi::readBigEndianInt16, (void*)(u16)Strigi::readBigEndianUInt16, (void*)(f32)Strigi::readBigEndianInt32, (void*)(u32)Strigi::readBigEndianUInt32, (void*)(f64)Strigi::readBigEndianInt64, (void*)(u64)Strigi::readBigEndianUInt64,
(void*)(g16)Strigi::readLittleEndianInt16, (void*)(v16)Strigi::readLittleEndianUInt16, (void*)(g32)Strigi::readLittleEndianInt32, (void*)(v32)Strigi::readLittleEndianUInt32, (void*)(g64)Strigi::readLittleEndianInt64, (void*)(v64)Strigi::readLittleEndianUInt64,
(void*)(g16)Strigi::readBigEndianInt16, (void*)(v16)Strigi::readBigEndianUInt16, (void*)(g32)Strigi::readBigEndianInt32, (void*)(v32)Strigi::readBigEndianUInt32, (void*)(g64)Strigi::readBigEndianInt64, (void*)(v64)Strigi::readBigEndianUInt64 };
}
