#include <libcxml/cxml.h>
#include <algorithm>

using std::string;
using std::vector;
using boost::optional;
using std::make_shared;

namespace cxml {

string Node::name () const
{
	return _node ? string(_node->get_name()) : string();
}

string Node::content () const
{
	string s;
	for (auto i: _node->get_children()) {
		auto v = dynamic_cast<xmlpp::ContentNode const*>(i);
		if (v && dynamic_cast<xmlpp::TextNode const*>(v)) s += v->get_content();
	}
	return s;
}

string Node::namespace_uri () const { return _node->get_namespace_uri(); }
string Node::namespace_prefix () const { return _node->get_namespace_prefix(); }
bool Node::is_text () const { return dynamic_cast<xmlpp::TextNode const*>(_node); }
int Node::line () const { return _node->get_line(); }

vector<NodePtr> Node::node_children () const
{
	vector<NodePtr> r;
	for (auto i: _node->get_children()) r.push_back(make_shared<Node>(i));
	return r;
}

vector<NodePtr> Node::node_children (string const& name) const
{
	vector<NodePtr> r;
	for (auto i: _node->get_children(name)) r.push_back(make_shared<Node>(i));
	_taken.push_back(name);
	return r;
}

NodePtr Node::node_child (string const& name) const
{
	auto n = node_children(name);
	if (n.size() > 1) throw Error("duplicate XML tag " + name);
	if (n.empty()) throw Error("missing XML tag " + name + " in " + this->name());
	return n.front();
}

NodePtr Node::optional_node_child (string const& name) const
{
	auto n = node_children(name);
	if (n.size() > 1) throw Error("duplicate XML tag " + name);
	return n.empty() ? NodePtr() : n.front();
}

string Node::string_child (string const& name) const { return node_child(name)->content(); }

optional<string> Node::optional_string_child (string const& name) const
{
	auto n = node_children(name);
	if (n.size() > 1) throw Error("duplicate XML tag " + name);
	if (n.empty()) return optional<string>();
	return n.front()->content();
}

static bool as_bool (string const& s) { return s == "1" || s == "yes" || s == "True" || s == "true"; }

bool Node::bool_child (string const& name) const { return as_bool(string_child(name)); }

optional<bool> Node::optional_bool_child (string const& name) const
{
	auto s = optional_string_child(name);
	if (!s) return optional<bool>();
	return as_bool(*s);
}

optional<string> Node::optional_string_attribute (string const& name) const
{
	auto e = dynamic_cast<xmlpp::Element const*>(_node);
	if (!e) return optional<string>();
	auto a = e->get_attribute(name);
	if (!a) return optional<string>();
	return string(a->get_value());
}

string Node::string_attribute (string const& name) const
{
	auto s = optional_string_attribute(name);
	if (!s) throw Error("missing attribute " + name);
	return *s;
}

bool Node::bool_attribute (string const& name) const { return as_bool(string_attribute(name)); }

optional<bool> Node::optional_bool_attribute (string const& name) const
{
	auto s = optional_string_attribute(name);
	if (!s) return optional<bool>();
	return as_bool(*s);
}

void Node::ignore_child (string const& name) const { _taken.push_back(name); }

void Node::done () const
{
	for (auto i: _node->get_children()) {
		if (dynamic_cast<xmlpp::Element const*>(i) && std::find(_taken.begin(), _taken.end(), i->get_name()) == _taken.end()) {
			throw Error("unexpected XML node " + i->get_name());
		}
	}
}

Document::Document (string const& root_name, boost::filesystem::path const& file)
	: _root_name(root_name)
{
	read_file(file);
}

void Document::read_file (boost::filesystem::path const& file)
{
	if (!boost::filesystem::exists(file)) throw Error("XML file " + file.string() + " does not exist");
	_parser = make_shared<xmlpp::DomParser>();
	_parser->parse_file(file.string());
	take_root_node();
}

void Document::read_string (string const& s, bool throw_messages)
{
	_parser = make_shared<xmlpp::DomParser>();
	_parser->set_throw_messages(throw_messages);
	std::stringstream t(s);
	_parser->parse_stream(t);
	take_root_node();
}

void Document::take_root_node ()
{
	if (!*_parser) throw Error("could not parse XML");
	_node = _parser->get_document()->get_root_node();
	if (!_root_name.empty() && _node->get_name() != _root_name) throw Error("unrecognised root node " + _node->get_name() + " (expecting " + _root_name + ")");
	if (_root_name.empty()) _root_name = _node->get_name();
}

xmlpp::Element* add_child (xmlpp::Element* parent, string const& name, string const& ns)
{
	return parent->add_child(name, ns);
}

void add_text_child (xmlpp::Element* parent, string const& name, string const& text)
{
	parent->add_child(name)->add_child_text(text);
}

}
