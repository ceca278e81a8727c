"""Acceptor for the supported grammar: the generated parser of the committed SqlBase.g4, kept as a copy in /verif/vendor so that
it does not change with the code under test.  It only says whether a text is a sentence of the grammar, up to its end."""
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vendor")


class _No(Exception):
    pass


_made = None


def _parts():
    global _made
    if _made is None:
        sys.path.append(HERE)
        from antlr4 import CommonTokenStream, Token
        from antlr4.error.ErrorListener import ErrorListener
        from antlr4.InputStream import InputStream
        import importlib.util

        def load(name):
            spec = importlib.util.spec_from_file_location("vendored_" + name, os.path.join(HERE, name + ".py"))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            return getattr(m, name)

        class Listener(ErrorListener):
            def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
                raise _No(msg)
        _made = (load("SqlBaseLexer"), load("SqlBaseParser"), CommonTokenStream, Token, InputStream, Listener)
    return _made


def tree(text, kind):
    """(parser, parse tree) of a text, or None when it is no sentence."""
    Lexer, Parser, Stream, Token, Input, Listener = _parts()
    lexer = Lexer(Input(text))
    lexer.removeErrorListeners()
    lexer.addErrorListener(Listener())
    stream = Stream(lexer)
    parser = Parser(stream)
    parser.removeErrorListeners()
    parser.addErrorListener(Listener())
    try:
        if kind == "expr":
            return parser, parser.standaloneExpression()
        if kind == "type":
            return parser, parser.standaloneType()
        node = parser.query()
        if stream.LT(1).text == ";":
            stream.consume()
        return (parser, node) if stream.LT(1).type == Token.EOF else None
    except _No:
        return None


def accepts(text, kind):
    return tree(text, kind) is not None
