// Instantiations only: the verified text is /repo's headers.
#include <strigi/streambase.h>
#include <strigi/stringstream.h>
#include <strigi/bufferedstream.h>
#include <strigi/textutils.h>
namespace Strigi {
template class StreamBase<char>;
template class StreamBase<wchar_t>;
template class StringStream<char>;
template class StringStream<wchar_t>;
template class BufferedStream<char>;
template class BufferedStream<wchar_t>;
}
