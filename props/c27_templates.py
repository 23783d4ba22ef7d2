"""the templates of C27, in a small module of their own: their source is spliced for every snippet"""
from effectful.handlers.llm import Template, Tool
from effectful.ops.types import NotHandled


def make_templates(k, x, q):
    @Template.define
    def inner(k2: object) -> str:
        """Inner"""
        raise NotHandled

    @Tool.define
    def nest() -> str:
        """asks again"""
        return inner(q)

    @Template.define
    def ask(k2: object) -> str:
        """Outer"""
        raise NotHandled
    make_templates.seen = (k, x)
    return ask
