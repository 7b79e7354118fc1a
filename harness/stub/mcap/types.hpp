// Declarations of the MCAP C++ library that the converter uses, over in-memory bags.  The behaviour follows the library's
// documentation: ids are assigned by the writer, schema id 0 means "no schema", a message's data belongs to the reader and
// is valid until the iterator advances, writing to an unknown channel is an error.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using KeyValueMap = std::unordered_map<std::string, std::string>;
using ByteArray = std::vector<std::byte>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();
enum struct Compression { None, Lz4, Zstd };
enum struct CompressionLevel { Fastest, Fast, Default, Slow, Slowest };
enum struct StatusCode { Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, OpenFailed, InvalidRecord, InvalidOpCode, MissingStatistics };
struct Status {
  StatusCode code;
  std::string message;
  Status() : code(StatusCode::Success) {}
  Status(StatusCode c) : code(c), message(c == StatusCode::Success ? "" : "error") {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};
using ProblemCallback = std::function<void(const Status&)>;
struct Header { std::string profile, library; };
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(const std::string_view n, const std::string_view e, const std::string_view d) : name(n), encoding(e), data((const std::byte*)d.data(), (const std::byte*)d.data() + d.size()) {}
  Schema(const std::string_view n, const std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(const std::string_view t, const std::string_view e, SchemaId s, const KeyValueMap& m = {}) : topic(t), messageEncoding(e), schemaId(s), metadata(m) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Metadata { std::string name; KeyValueMap metadata; };
struct MetadataIndex { uint64_t offset = 0, length = 0; std::string name; };
enum struct OpCode : uint8_t { Metadata = 0x0C, Other = 0x7f };
struct Record {
  OpCode opcode = OpCode::Other;
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
};
// what a bag file holds
struct BagMessage {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  std::vector<uint8_t> data;
};
struct Bag {
  std::string name, profile;
  std::vector<Schema> schemas;
  std::vector<Channel> channels;
  std::vector<BagMessage> messages;
  std::vector<Metadata> metadata;
  Compression compression = Compression::None;
  bool opened = false, closed = false;
};
namespace stub {
inline const Bag* source = nullptr;  // the file that is opened for reading
inline Bag* sink = nullptr;          // the file that is opened for writing
inline int failOpen = 0, failSummary = 0, failCreate = 0, failMetadata = 0;
inline long failWrite = -1;
}  // namespace stub
}  // namespace mcap
