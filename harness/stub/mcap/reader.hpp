#pragma once
#include "types.hpp"
namespace mcap {
struct IReadable {
  virtual ~IReadable() = default;
  virtual const Bag* bag() const = 0;
  virtual bool good() const = 0;
};
class FileStreamReader final : public IReadable {
 public:
  FileStreamReader(std::ifstream& s) : stream_(s), bag_(stub::source) {}
  const Bag* bag() const override { return bag_; }
  bool good() const override { return !stream_.fail(); }

 private:
  std::ifstream& stream_;
  const Bag* bag_;
};
enum struct ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct ReadMessageOptions {
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  ReadOrder readOrder = ReadOrder::FileOrder;
  ReadMessageOptions() = default;
  ReadMessageOptions(Timestamp s, Timestamp e) : startTime(s), endTime(e) {}
};
struct RecordOffset { ByteOffset offset = 0; };
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
  const RecordOffset messageOffset;
};
class McapReader;
class LinearMessageView {
 public:
  struct Iterator {
    using value_type = MessageView;
    const MessageView& operator*() const { return *view_; }
    const MessageView* operator->() const { return view_.get(); }
    Iterator& operator++() { pos_++; load(); return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(const Iterator& a, const Iterator& b) { return a.end() == b.end() && (a.end() || a.pos_ == b.pos_); }
    friend bool operator!=(const Iterator& a, const Iterator& b) { return !(a == b); }
    Iterator(const LinearMessageView* v, size_t p) : v_(v), pos_(p) { load(); }

   private:
    bool end() const { return pos_ >= v_->order_.size(); }
    void load();
    const LinearMessageView* v_;
    size_t pos_;
    std::shared_ptr<Message> msg_;
    std::shared_ptr<std::vector<std::byte>> buf_;
    std::shared_ptr<MessageView> view_;
  };
  LinearMessageView(McapReader& r, const ReadMessageOptions& o);
  Iterator begin() { return Iterator(this, 0); }
  Iterator end() { return Iterator(this, order_.size()); }

 private:
  friend struct Iterator;
  McapReader& r_;
  std::vector<const BagMessage*> order_;
};
class McapReader {
 public:
  Status open(IReadable& r) {
    if (stub::failOpen || !r.good()) return Status(StatusCode::OpenFailed, "open");
    bag_ = r.bag();
    header_ = Header{bag_->profile, "library"};
    return Status();
  }
  void close() { bag_ = nullptr; }
  Status readSummary(ReadSummaryMethod, const ProblemCallback& = [](const Status&) {}) {
    if (stub::failSummary) return Status(StatusCode::ReadFailed, "summary");
    for (auto& s : bag_->schemas) schemas_[s.id] = std::make_shared<Schema>(s);
    for (auto& c : bag_->channels) channels_[c.id] = std::make_shared<Channel>(c);
    for (size_t i = 0; i < bag_->metadata.size(); i++) metadata_.insert({bag_->metadata[i].name, MetadataIndex{100 + i, 1, bag_->metadata[i].name}});
    return Status();
  }
  const std::optional<Header>& header() const { return header_; }
  const std::unordered_map<SchemaId, SchemaPtr> schemas() const { return schemas_; }
  const std::unordered_map<ChannelId, ChannelPtr> channels() const { return channels_; }
  SchemaPtr schema(SchemaId id) const { auto it = schemas_.find(id); return it == schemas_.end() ? nullptr : it->second; }
  ChannelPtr channel(ChannelId id) const { auto it = channels_.find(id); return it == channels_.end() ? nullptr : it->second; }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { return metadata_; }
  LinearMessageView readMessages(Timestamp s = 0, Timestamp e = MaxTime) { return LinearMessageView(*this, ReadMessageOptions(s, e)); }
  LinearMessageView readMessages(const ProblemCallback&, Timestamp s = 0, Timestamp e = MaxTime) { return LinearMessageView(*this, ReadMessageOptions(s, e)); }
  LinearMessageView readMessages(const ProblemCallback&, const ReadMessageOptions& o) { return LinearMessageView(*this, o); }
  static Status ReadRecord(IReadable& r, uint64_t offset, Record* rec) {
    if (stub::failMetadata == 1) return Status(StatusCode::ReadFailed, "record");
    if (offset < 100 || offset - 100 >= r.bag()->metadata.size()) return Status(StatusCode::InvalidRecord, "offset");
    rec->opcode = OpCode::Metadata;
    rec->dataSize = sizeof(Metadata);
    rec->data = (std::byte*)&r.bag()->metadata[offset - 100];
    return Status();
  }
  static Status ParseMetadata(const Record& rec, Metadata* m) {
    if (stub::failMetadata == 2) return Status(StatusCode::InvalidRecord, "metadata");
    if (rec.opcode != OpCode::Metadata) return Status(StatusCode::InvalidOpCode, "opcode");
    *m = *(const Metadata*)rec.data;
    return Status();
  }
  const Bag* bag() const { return bag_; }

 private:
  const Bag* bag_ = nullptr;
  std::optional<Header> header_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::multimap<std::string, MetadataIndex> metadata_;
};
inline LinearMessageView::LinearMessageView(McapReader& r, const ReadMessageOptions& o) : r_(r) {
  for (auto& m : r.bag()->messages) {
    if (m.logTime < o.startTime || (o.endTime != MaxTime && m.logTime >= o.endTime)) continue;
    if (o.topicFilter && !o.topicFilter(r.channel(m.channelId)->topic)) continue;
    size_t i = order_.size();
    order_.push_back(&m);
    if (o.readOrder == ReadMessageOptions::ReadOrder::FileOrder) continue;
    const bool rev = o.readOrder == ReadMessageOptions::ReadOrder::ReverseLogTimeOrder;
    while (i > 0 && (rev ? order_[i - 1]->logTime < m.logTime : order_[i - 1]->logTime > m.logTime)) { order_[i] = order_[i - 1]; i--; }
    order_[i] = &m;
  }
}
inline void LinearMessageView::Iterator::load() {
  if (end()) { view_.reset(); buf_.reset(); msg_.reset(); return; }
  const BagMessage& m = *v_->order_[pos_];
  msg_ = std::make_shared<Message>();
  buf_ = std::make_shared<std::vector<std::byte>>((const std::byte*)m.data.data(), (const std::byte*)m.data.data() + m.data.size());
  msg_->channelId = m.channelId;
  msg_->sequence = m.sequence;
  msg_->logTime = m.logTime;
  msg_->publishTime = m.publishTime;
  msg_->dataSize = m.data.size();
  msg_->data = buf_->data();
  ChannelPtr c = v_->r_.channel(m.channelId);
  view_.reset(new MessageView{*msg_, c, v_->r_.schema(c->schemaId), RecordOffset{pos_}});
}
}  // namespace mcap
