// Minimal stand-in for the part of CLI11 that fstalign uses (the real header is not in this sandbox).
// It only has to give main.cpp resolved declarations to analyse.
#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
namespace CLI {
class Error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
  int get_exit_code() const;
};
class ParseError : public Error {
 public:
  using Error::Error;
};
class Validator {};
extern const Validator ExistingFile;
extern const Validator NonexistentPath;
class Option {
 public:
  Option *required(bool v = true);
  Option *capture_default_str();
  Option *check(const Validator &v, const std::string &name = "");
  Option *expected(int n);
  Option *type_name(std::string n);
  Option *group(std::string n);
  Option *needs(Option *o);
  Option *excludes(Option *o);
  Option *envname(std::string n);
};
class App {
 public:
  explicit App(std::string description = "", std::string name = "");
  App *add_subcommand(std::string name, std::string description = "");
  template <typename T>
  Option *add_option(std::string names, T &variable, std::string description = "", bool defaulted = false);
  template <typename T>
  Option *add_flag(std::string names, T &variable, std::string description = "");
  Option *add_flag(std::string names);
  Option *set_help_all_flag(std::string names, std::string description = "");
  Option *set_help_flag(std::string names, std::string description = "");
  App *require_subcommand(int n = 1);
  App *require_subcommand(int lo, int hi);
  App *fallthrough(bool v = true);
  void parse(int argc, const char *const *argv);
  int exit(const Error &e) const;
  std::vector<App *> get_subcommands() const;
  bool got_subcommand(const App *s) const;
  bool got_subcommand(std::string s) const;
  bool parsed() const;
  const std::string &get_name() const;
  std::string help() const;
};
}  // namespace CLI
#define CLI11_PARSE(app, argc, argv) \
  try { (app).parse((argc), (argv)); } catch (const CLI::ParseError &e) { return (app).exit(e); }
