#include <kl/json.hpp>
#include <kl/serialization_error.hpp>
#include <cstdint>
#include <string>

extern "C" void klv_wrote(int kind, std::uint64_t v); // 0 int, 1 unsigned, 2 int64, 3 uint64, 4 bool, 5 other

namespace {
rapidjson::Value make(int kind, std::uint64_t bits)
{
    switch (kind)
    {
    case 0: return rapidjson::Value(static_cast<int>(bits));
    case 1: return rapidjson::Value(static_cast<unsigned>(bits));
    case 2: return rapidjson::Value(static_cast<std::int64_t>(bits));
    case 3: return rapidjson::Value(bits);
    case 4: { double d; __builtin_memcpy(&d, &bits, 8); return rapidjson::Value(d); }
    case 5: return rapidjson::Value();
    case 6: return rapidjson::Value(false);
    case 7: return rapidjson::Value(true);
    case 8: return rapidjson::Value("12", 2);
    case 9: return rapidjson::Value(rapidjson::kArrayType);
    default: return rapidjson::Value(rapidjson::kObjectType);
    }
}

// stands in for a writer: reports what it is told to write
struct recorder
{
    using Ch = char;
    bool Int(int v) { klv_wrote(0, static_cast<std::uint64_t>(static_cast<std::int64_t>(v))); return true; }
    bool Uint(unsigned v) { klv_wrote(1, v); return true; }
    bool Int64(std::int64_t v) { klv_wrote(2, static_cast<std::uint64_t>(v)); return true; }
    bool Uint64(std::uint64_t v) { klv_wrote(3, v); return true; }
    bool Bool(bool v) { klv_wrote(4, v); return true; }
    bool Null() { klv_wrote(5, 0); return true; }
    bool Double(double) { klv_wrote(5, 0); return true; }
    bool String(const char*, unsigned = 0) { klv_wrote(5, 0); return true; }
    bool String(const std::string&) { klv_wrote(5, 0); return true; }
};

template <typename T>
int de(int kind, std::uint64_t bits, T* out)
{
    const rapidjson::Value v = make(kind, bits);
    try
    {
        *out = kl::json::deserialize<T>(v);
        return 0;
    }
    catch (const kl::serialization::deserialize_error&)
    {
        return 1;
    }
    catch (...)
    {
        return 2;
    }
}
template <typename T>
int de_ref(int kind, std::uint64_t bits, T* out)
{
    const rapidjson::Value v = make(kind, bits);
    try
    {
        kl::json::deserialize(*out, v);
        return 0;
    }
    catch (const kl::serialization::deserialize_error&)
    {
        return 1;
    }
    catch (...)
    {
        return 2;
    }
}
template <typename T>
int round(T in, T* out)
{
    kl::json::owning_serialize_context ctx;
    const rapidjson::Value v = kl::json::serialize(in, ctx);
    try
    {
        *out = kl::json::deserialize<T>(v);
        return 0;
    }
    catch (...)
    {
        return 1;
    }
}
template <typename T>
void put(T in)
{
    recorder r;
    kl::json::dump_context<recorder> ctx{r};
    kl::json::dump(in, ctx);
}
} // namespace

#define TYPE(N, T)                                                             \
    int klv_de_##N(int kind, std::uint64_t bits, T* out) { return de<T>(kind, bits, out); } \
    int klv_ref_##N(int kind, std::uint64_t bits, T* out) { return de_ref<T>(kind, bits, out); } \
    int klv_round_##N(T in, T* out) { return round<T>(in, out); }              \
    void klv_put_##N(T in) { put<T>(in); }
extern "C" {
TYPE(i8, std::int8_t)
TYPE(u8, std::uint8_t)
TYPE(ch, char)
TYPE(i16, std::int16_t)
TYPE(u16, std::uint16_t)
TYPE(i32, std::int32_t)
TYPE(u32, std::uint32_t)
TYPE(i64, std::int64_t)
TYPE(u64, std::uint64_t)
TYPE(bool, bool)
int klv_de_ll(int kind, std::uint64_t bits, long long* out) { return de<long long>(kind, bits, out); }
int klv_de_ull(int kind, std::uint64_t bits, unsigned long long* out) { return de<unsigned long long>(kind, bits, out); }
}
