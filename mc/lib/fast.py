"""
Speed: soapfish makes a new Jinja environment for every document it generates, which compiles the templates again.

The result of compiling is a function of the source and the settings of the environment, so it is remembered here.
"""
import jinja2

_compile = jinja2.Environment.compile
_memo = {}


def compile_(self, source, name=None, filename=None, raw=False, defer_init=False):
    if not isinstance(source, str) or raw:
        return _compile(self, source, name, filename, raw, defer_init)
    key = (source, name, filename, defer_init, tuple(sorted(self.extensions)), tuple(sorted(self.filters)),
           tuple(sorted(self.tests)), tuple(sorted(self.globals)), bool(self.autoescape), self.optimized, self.sandboxed,
           self.block_start_string, self.variable_start_string, self.comment_start_string, self.line_statement_prefix,
           self.line_comment_prefix, self.trim_blocks, self.lstrip_blocks, self.newline_sequence,
           self.keep_trailing_newline, self.undefined, self.is_async)
    if key not in _memo:
        _memo[key] = _compile(self, source, name, filename, raw, defer_init)
    return _memo[key]


jinja2.Environment.compile = compile_
