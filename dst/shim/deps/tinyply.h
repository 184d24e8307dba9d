// Minimal stand-in for tinyply (the real header is downloaded at configure time and is not
// available offline). Same interface and same on-disk format for the calls the solver makes:
// binary little-endian PLY, one element, scalar properties interleaved per vertex.
#ifndef DST_TINYPLY_SHIM_H
#define DST_TINYPLY_SHIM_H
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
#include <vector>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
inline size_t type_size(Type t){
    switch (t){
        case Type::INT8: case Type::UINT8: return 1;
        case Type::INT16: case Type::UINT16: return 2;
        case Type::INT32: case Type::UINT32: case Type::FLOAT32: return 4;
        case Type::FLOAT64: return 8;
        default: return 0;
    }
}
inline const char* type_name(Type t){
    switch (t){
        case Type::INT8: return "char"; case Type::UINT8: return "uchar";
        case Type::INT16: return "short"; case Type::UINT16: return "ushort";
        case Type::INT32: return "int"; case Type::UINT32: return "uint";
        case Type::FLOAT32: return "float"; case Type::FLOAT64: return "double";
        default: return "INVALID";
    }
}
class PlyFile {
    struct Group { std::vector<std::string> keys; Type type; const uint8_t* data; };
    struct Element { std::string name; size_t size; std::vector<Group> groups; };
    std::vector<Element> elements;
    std::vector<std::string> comments;
public:
    std::vector<std::string>& get_comments(){ return comments; }
    void add_properties_to_element(const std::string& element, const std::vector<std::string> keys,
                                   const Type type, const size_t count, const uint8_t* data,
                                   const Type list_type, const size_t list_count){
        (void)list_type; (void)list_count;
        for (auto& e : elements)
            if (e.name == element){ e.groups.push_back({keys, type, data}); return; }
        elements.push_back({element, count, {{keys, type, data}}});
    }
    void write(std::ostream& os, bool binary){
        (void)binary;
        os << "ply\n" << "format binary_little_endian 1.0\n";
        for (auto& c : comments) os << "comment " << c << "\n";
        for (auto& e : elements){
            os << "element " << e.name << " " << e.size << "\n";
            for (auto& g : e.groups)
                for (auto& k : g.keys)
                    os << "property " << type_name(g.type) << " " << k << "\n";
        }
        os << "end_header\n";
        std::vector<char> row;
        for (auto& e : elements){
            size_t stride = 0;
            for (auto& g : e.groups) stride += g.keys.size() * type_size(g.type);
            row.resize(stride);
            for (size_t i = 0; i < e.size; i++){
                size_t off = 0;
                for (auto& g : e.groups){
                    size_t n = g.keys.size() * type_size(g.type);
                    std::memcpy(row.data() + off, g.data + i * n, n);
                    off += n;
                }
                os.write(row.data(), stride);
            }
        }
    }
};
} // namespace tinyply
#endif
