// A stand-in for the tool description library (TDL), which is not installed here: it has the data structures that Sharg
// fills, and records what is given to the two converters instead of writing CTD or CWL.
#pragma once

#include <concepts>
#include <set>
#include <string>
#include <utility>
#include <variant>
#include <vector>

namespace tdl
{
struct BoolValue
{
    bool value{};
    BoolValue() = default;
    BoolValue(bool v) : value{v} {}
};

struct IntValue
{
    __int128 value{};
    IntValue() = default;
    template <std::integral t>
    IntValue(t v) : value{v} {}
};

struct DoubleValue
{
    long double value{};
    DoubleValue() = default;
    template <std::floating_point t>
    DoubleValue(t v) : value{v} {}
};

using StringValue = std::string;
using IntValueList = std::vector<int>;
using DoubleValueList = std::vector<double>;
using StringValueList = std::vector<std::string>;

struct Node
{
    using Children = std::vector<Node>;
    using Value = std::variant<BoolValue, IntValue, DoubleValue, StringValue, IntValueList, DoubleValueList, StringValueList, Children>;

    std::string name{};
    std::string description{};
    std::set<std::string> tags{};
    Value value{Children{}};
};

struct CLIMapping
{
    std::string optionIdentifier{};
    std::string referenceName{};
};

struct Citation
{
    std::string doi{};
    std::string url{};
};

struct MetaInfo
{
    std::string version{};
    std::string name{};
    std::string docurl{};
    std::string category{};
    std::string description{};
    std::string executableName{};
    std::vector<Citation> citations{};
};

struct ToolInfo
{
    MetaInfo metaInfo{};
    Node::Children params{};
    std::vector<CLIMapping> cliMapping{};
};

struct conversion
{
    std::string format;
    ToolInfo info;
};

inline std::vector<conversion> conversions;

inline std::string convertToCTD(ToolInfo const & info)
{
    conversions.push_back({"ctd", info});
    return "<the tool as CTD>\n";
}

inline std::string convertToCWL(ToolInfo const & info)
{
    conversions.push_back({"cwl", info});
    return "the tool as CWL";
}
} // namespace tdl
