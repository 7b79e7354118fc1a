#pragma once
#include "types.hpp"
namespace mcap {
struct McapWriterOptions {
  bool noChunkCRC = false, noAttachmentCRC = false, enableDataCRC = false, noSummaryCRC = false, noChunking = false, noMessageIndex = false, noSummary = false;
  uint64_t chunkSize = 1024 * 768;
  Compression compression = Compression::Zstd;
  CompressionLevel compressionLevel = CompressionLevel::Default;
  bool forceCompression = false;
  std::string profile, library;
  bool noRepeatedSchemas = false, noRepeatedChannels = false, noAttachmentIndex = false, noMetadataIndex = false, noChunkIndex = false, noStatistics = false, noSummaryOffsets = false;
  McapWriterOptions(const std::string_view p) : profile(p) {}
};
class McapWriter {
 public:
  ~McapWriter() { close(); }
  Status open(std::string_view filename, const McapWriterOptions& o) {
    if (stub::failCreate) return Status(StatusCode::OpenFailed, "create");
    bag_ = stub::sink;
    bag_->name = std::string(filename);
    bag_->profile = o.profile;
    bag_->compression = o.compression;
    bag_->opened = true;
    return Status();
  }
  void addSchema(Schema& s) { s.id = (SchemaId)(bag_->schemas.size() + 1); bag_->schemas.push_back(s); }
  void addChannel(Channel& c) { c.id = (ChannelId)(bag_->channels.size() + 1); bag_->channels.push_back(c); }
  Status write(const Message& m) {
    if (!bag_) return Status(StatusCode::NotOpen, "not open");
    if (stub::failWrite >= 0 && stub::failWrite-- == 0) return Status(StatusCode::ReadFailed, "disk full");
    if (m.channelId == 0 || m.channelId > bag_->channels.size()) return Status(StatusCode::InvalidChannelId, "channel");
    const Channel& c = bag_->channels[m.channelId - 1];
    if (c.schemaId > bag_->schemas.size()) return Status(StatusCode::InvalidSchemaId, "schema");
    BagMessage b;
    b.channelId = m.channelId;
    b.sequence = m.sequence;
    b.logTime = m.logTime;
    b.publishTime = m.publishTime;
    b.data.resize(m.dataSize);
    if (m.dataSize) std::memcpy(b.data.data(), m.data, m.dataSize);
    bag_->messages.push_back(b);
    return Status();
  }
  Status write(const Metadata& m) {
    if (!bag_) return Status(StatusCode::NotOpen, "not open");
    if (stub::failMetadata == 3) return Status(StatusCode::ReadFailed, "disk full");
    bag_->metadata.push_back(m);
    return Status();
  }
  void close() { if (bag_) bag_->closed = true; bag_ = nullptr; }

 private:
  Bag* bag_ = nullptr;
};
}  // namespace mcap
