// Contract of the part of pugixml that the interpreter uses, written out as code for the verifier.  The native build
// (replay and search) uses the real library instead.  Handles are null or point to a node of a document; lookups by
// name give the first match or a null handle; every query of a null handle gives an empty result.
#ifndef STANDIN_PUGIXML
#define STANDIN_PUGIXML
#include <cstddef>
#include <iterator>
#include <string>
#include <vector>

namespace pugi
{
using char_t = char;
enum xml_node_type { node_null, node_document, node_element, node_pcdata };

struct standin_attribute
{
  std::string name, value;
};

struct standin_node
{
  xml_node_type type = node_null;
  std::string name, value;
  standin_node * parent = nullptr;
  std::vector<standin_attribute *> attributes;
  std::vector<standin_node *> children;
};

class xml_attribute
{
  standin_attribute * self = nullptr;

public:
  xml_attribute() = default;
  explicit xml_attribute(standin_attribute * self) : self(self) {}
  explicit operator bool() const { return self != nullptr; }
  bool operator!() const { return self == nullptr; }
  bool empty() const { return self == nullptr; }
  const char_t * name() const { return self ? self->name.c_str() : ""; }
  const char_t * value() const { return self ? self->value.c_str() : ""; }
  const char_t * as_string(const char_t * def = "") const { return self ? self->value.c_str() : def; }
  bool set_value(const char_t * text)
  {
    if (self) self->value = text;
    return self != nullptr;
  }
  xml_attribute & operator=(const char_t * text)
  {
    set_value(text);
    return *this;
  }
};

class xml_text
{
  const standin_node * self = nullptr;

public:
  explicit xml_text(const standin_node * self) : self(self) {}
  const char_t * get() const
  {
    if (self)
      for (const standin_node * each : self->children)
        if (each->type == node_pcdata) return each->value.c_str();
    return "";
  }
};

class xml_node;
class xml_node_iterator;
class xml_node_range;

class xml_node
{
protected:
  standin_node * self = nullptr;

public:
  using iterator = xml_node_iterator;
  xml_node() = default;
  explicit xml_node(standin_node * self) : self(self) {}
  explicit operator bool() const { return self != nullptr; }
  bool operator!() const { return self == nullptr; }
  bool operator==(const xml_node & other) const { return self == other.self; }
  bool operator!=(const xml_node & other) const { return self != other.self; }
  bool empty() const { return self == nullptr; }
  xml_node_type type() const { return self ? self->type : node_null; }
  const char_t * name() const { return self ? self->name.c_str() : ""; }
  const char_t * value() const { return self ? self->value.c_str() : ""; }
  xml_text text() const { return xml_text(self); }
  xml_node parent() const { return xml_node(self ? self->parent : nullptr); }

  xml_attribute attribute(const char_t * name) const
  {
    const std::string wanted = name;
    if (self)
      for (standin_attribute * each : self->attributes)
        if (each->name == wanted) return xml_attribute(each);
    return xml_attribute();
  }

  xml_node child(const char_t * name) const
  {
    const std::string wanted = name;
    if (self)
      for (standin_node * each : self->children)
        if (each->name == wanted) return xml_node(each);
    return xml_node();
  }

  xml_node first_child() const { return self and not self->children.empty() ? xml_node(self->children.front()) : xml_node(); }

  xml_node append_child(const char_t * name)
  {
    standin_node * node = new standin_node();
    node->type = node_element;
    node->name = name;
    node->parent = self;
    self->children.push_back(node);
    return xml_node(node);
  }
  xml_node append_child(xml_node_type type)
  {
    standin_node * node = new standin_node();
    node->type = type;
    node->parent = self;
    self->children.push_back(node);
    return xml_node(node);
  }
  bool set_value(const char_t * text)
  {
    self->value = text;
    return true;
  }
  bool set_name(const char_t * text)
  {
    self->name = text;
    return true;
  }
  xml_attribute append_attribute(const char_t * name)
  {
    standin_attribute * attribute = new standin_attribute();
    attribute->name = name;
    self->attributes.push_back(attribute);
    return xml_attribute(attribute);
  }

  inline xml_node_iterator begin() const;
  inline xml_node_iterator end() const;
  inline xml_node_range children() const;
  inline xml_node_range children(const char_t * name) const;
  friend class xml_node_iterator;
};

class xml_node_iterator
{
  standin_node * parent = nullptr;
  std::size_t position = 0;
  xml_node current;
  void settle() { current = parent and position < parent->children.size() ? xml_node(parent->children[position]) : xml_node(); }

public:
  using difference_type = std::ptrdiff_t;
  using value_type = xml_node;
  using pointer = xml_node *;
  using reference = xml_node &;
  using iterator_category = std::forward_iterator_tag;
  xml_node_iterator() = default;
  xml_node_iterator(standin_node * parent, std::size_t position) : parent(parent), position(position) { settle(); }
  bool operator==(const xml_node_iterator & other) const { return parent == other.parent and position == other.position; }
  bool operator!=(const xml_node_iterator & other) const { return not(*this == other); }
  xml_node & operator*() const { return const_cast<xml_node &>(current); }
  xml_node * operator->() const { return const_cast<xml_node *>(&current); }
  xml_node_iterator & operator++()
  {
    ++position;
    settle();
    return *this;
  }
  xml_node_iterator operator++(int)
  {
    auto before = *this;
    ++*this;
    return before;
  }
};

// the children, in order, at the time the range was asked for
class xml_node_range : public std::vector<xml_node>
{
};

inline xml_node_iterator xml_node::begin() const { return xml_node_iterator(self, 0); }
inline xml_node_iterator xml_node::end() const { return xml_node_iterator(self, self ? self->children.size() : 0); }
inline xml_node_range xml_node::children() const
{
  xml_node_range range;
  if (self)
    for (standin_node * each : self->children) range.push_back(xml_node(each));
  return range;
}
inline xml_node_range xml_node::children(const char_t * name) const
{
  const std::string wanted = name;
  xml_node_range range;
  if (self)
    for (standin_node * each : self->children)
      if (each->name == wanted) range.push_back(xml_node(each));
  return range;
}

struct xml_parse_result
{
  bool ok = false;
  explicit operator bool() const { return ok; }
  const char * description() const { return ""; }
};

class xml_document : public xml_node
{
  standin_node root;

public:
  xml_document()
  {
    root.type = node_document;
    self = &root;
  }
  xml_document(const xml_document &) = delete;
  xml_document & operator=(const xml_document &) = delete;
  xml_parse_result load_file(const char * path);
  void reset() { root.children.clear(); }
};
}  // namespace pugi
#endif
