// Uninstrumented instances of the std::regex templates. Linked first, they
// replace the instrumented ones of the decoder, which is single-threaded and
// spends most of its time there; scheduling points there would be useless.
// Compiled expressions are remembered: the decoder compiles the same expression
// again for every log statement of a file.
#include <regex>
#include <string>
#include <vector>
namespace {
struct Cached { std::string re; std::regex_constants::syntax_option_type fl; std::shared_ptr<std::__detail::_NFA<std::regex_traits<char>>> nfa; };
std::vector<Cached> &cache() { static std::vector<Cached> *c = new std::vector<Cached>; return *c; }
std::shared_ptr<std::__detail::_NFA<std::regex_traits<char>>> rxFind(const char *b, const char *e, std::regex_constants::syntax_option_type f) {
    for (Cached &c : cache()) if (c.fl == f && c.re.size() == (size_t)(e - b) && !c.re.compare(0, c.re.size(), b, (size_t)(e - b))) return c.nfa;
    return nullptr;
}
}
namespace std { namespace __detail {
template <>
_Compiler<std::regex_traits<char>>::_Compiler(const char *b, const char *e, const std::locale &loc, std::regex_constants::syntax_option_type flags)
    : _M_flags(_S_validate(flags)), _M_scanner(rxFind(b, e, _M_flags) ? e : b, e, _M_flags, loc),
      _M_nfa(rxFind(b, e, _M_flags) ? rxFind(b, e, _M_flags) : std::make_shared<_RegexT>(loc, _M_flags)),
      _M_traits(_M_nfa->_M_traits), _M_ctype(std::use_facet<_CtypeT>(loc)) {
    if (rxFind(b, e, _M_flags)) return;
    _StateSeqT r(*_M_nfa, _M_nfa->_M_start());
    r._M_append(_M_nfa->_M_insert_subexpr_begin());
    this->_M_disjunction();
    if (!_M_match_token(_ScannerT::_S_token_eof)) __throw_regex_error(regex_constants::error_paren);
    r._M_append(_M_pop());
    r._M_append(_M_nfa->_M_insert_subexpr_end());
    r._M_append(_M_nfa->_M_insert_accept());
    _M_nfa->_M_eliminate_dummy();
    cache().push_back(Cached{std::string(b, e), _M_flags, _M_nfa});
}
} }
template class std::basic_regex<char>;
bool rxUse(const char *s, const char *r) {
    std::regex x(r);
    std::cmatch m;
    bool b = std::regex_search(s, m, x);
    std::smatch n;
    std::string t(s);
    b = b && std::regex_search(t, n, x);
    return b && std::regex_match(s, m, x) && m.length() && m[1].str().size() && n[1].str().size();
}
