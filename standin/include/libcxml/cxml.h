// Stand-in for libcxml: the parts which libdcp uses, over the real libxml++.
#ifndef STANDIN_CXML_H
#define STANDIN_CXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <libxml++/libxml++.h>
#include <cmath>
#include <list>
#include <locale>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace cxml {

class Error : public std::exception
{
public:
	explicit Error (std::string const& m) : _m(m) {}
	~Error () noexcept {}
	char const* what () const noexcept { return _m.c_str(); }
private:
	std::string _m;
};

class Node;
typedef std::shared_ptr<Node> NodePtr;
typedef std::shared_ptr<const Node> ConstNodePtr;

template <class T>
T number (std::string const& text)
{
	std::stringstream s;
	s.imbue(std::locale::classic());
	std::string t;
	for (auto c: text) {
		if (c != ',') t += c;
	}
	s << t;
	T v = T();
	s >> v;
	return v;
}

class Node
{
public:
	Node () {}
	explicit Node (xmlpp::Node const* node) : _node(node) {}
	virtual ~Node () {}

	std::string name () const;
	std::string content () const;
	std::string namespace_uri () const;
	std::string namespace_prefix () const;
	bool is_text () const;
	int line () const;
	xmlpp::Node* node () const { return const_cast<xmlpp::Node*>(_node); }

	std::string string_child (std::string const& name) const;
	boost::optional<std::string> optional_string_child (std::string const& name) const;
	bool bool_child (std::string const& name) const;
	boost::optional<bool> optional_bool_child (std::string const& name) const;
	template <class T> T number_child (std::string const& name) const { return number<T>(string_child(name)); }
	template <class T> boost::optional<T> optional_number_child (std::string const& name) const
	{
		auto s = optional_string_child(name);
		if (!s) return boost::optional<T>();
		return number<T>(*s);
	}

	std::string string_attribute (std::string const& name) const;
	boost::optional<std::string> optional_string_attribute (std::string const& name) const;
	bool bool_attribute (std::string const& name) const;
	boost::optional<bool> optional_bool_attribute (std::string const& name) const;
	template <class T> T number_attribute (std::string const& name) const { return number<T>(string_attribute(name)); }
	template <class T> boost::optional<T> optional_number_attribute (std::string const& name) const
	{
		auto s = optional_string_attribute(name);
		if (!s) return boost::optional<T>();
		return number<T>(*s);
	}

	NodePtr node_child (std::string const& name) const;
	NodePtr optional_node_child (std::string const& name) const;
	std::vector<NodePtr> node_children () const;
	std::vector<NodePtr> node_children (std::string const& name) const;

	void ignore_child (std::string const& name) const;
	void done () const;

protected:
	xmlpp::Node const* _node = nullptr;

private:
	mutable std::list<Glib::ustring> _taken;
};

class Document : public Node
{
public:
	Document () {}
	explicit Document (std::string const& root_name) : _root_name(root_name) {}
	Document (std::string const& root_name, boost::filesystem::path const& file);
	void read_file (boost::filesystem::path const& file);
	void read_string (std::string const& s, bool throw_messages = false);
	std::string root_name () const { return _root_name; }
private:
	void take_root_node ();
	std::shared_ptr<xmlpp::DomParser> _parser;
	std::string _root_name;
};

xmlpp::Element* add_child (xmlpp::Element* parent, std::string const& name, std::string const& ns = std::string());
void add_text_child (xmlpp::Element* parent, std::string const& name, std::string const& text);
template <class T> void add_text_child (xmlpp::Element* parent, std::string const& name, T const& v)
{
	std::stringstream s;
	s.imbue(std::locale::classic());
	s << v;
	add_text_child(parent, name, s.str());
}
inline void add_text_child (xmlpp::Element* parent, std::string const& name, char const* text) { add_text_child(parent, name, std::string(text)); }

}

#endif
