#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <vector>
namespace jsoncons { namespace cbor {
class cbor_bytes_encoder {
public:
    explicit cbor_bytes_encoder(std::vector<std::uint8_t>& out);
    ~cbor_bytes_encoder();
    bool null_value();
    bool bool_value(bool);
    bool int64_value(std::int64_t);
    bool uint64_value(std::uint64_t);
    bool double_value(double);
    bool string_value(const std::string_view&);
    bool byte_string_value(const std::vector<std::uint8_t>&);
    bool begin_array(std::size_t);
    bool end_array();
    bool begin_object(std::size_t);
    bool end_object();
    bool key(const std::string_view&);
};
} }
