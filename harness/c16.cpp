#include <kl/file_view.hpp>
#include <new>
#include <system_error>
extern "C" {
int klv_open_view(const char* path, kl::file_view* mem, int* code)
{
    try
    {
        new (mem) kl::file_view(path);
        return 0;
    }
    catch (const std::system_error& e)
    {
        *code = e.code().value();
        return 1;
    }
    catch (...)
    {
        return 2;
    }
}
const std::byte* klv_data(const kl::file_view* v) { return v->get_bytes().data(); }
std::size_t klv_size(const kl::file_view* v) { return v->get_bytes().size(); }
void klv_close_view(kl::file_view* v) { v->~file_view(); }
}
