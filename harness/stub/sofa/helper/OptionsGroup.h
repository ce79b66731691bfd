#pragma once
#include <string>
#include <vector>
namespace sofa::helper { class OptionsGroup { public: OptionsGroup() = default; explicit OptionsGroup(const std::vector<std::string> & n) : names(n) {} void setSelectedItem(unsigned int i) { if (i<names.size()) sel=i; } unsigned int getSelectedId() const { return sel; } const std::string & getSelectedItem() const { return names[sel]; } std::size_t size() const { return names.size(); } private: std::vector<std::string> names; unsigned int sel=0; }; }
