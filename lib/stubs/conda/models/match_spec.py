"""
Stand-in for `conda.models.match_spec`, which cannot be installed in this sandbox.

Only what conda-recipe-manager relies on is modelled: construction from a spec string, `.name` (lower-cased package
name), `.original_spec_str`, value equality and hashing, pickling, and rejection of strings that hold no package name
or a malformed version constraint.
"""

from __future__ import annotations

import re


class InvalidMatchSpec(ValueError):
    """Raised for spec strings that cannot be parsed."""

    def __init__(self, invalid_spec: str, details: str = "") -> None:
        self.invalid_spec = invalid_spec
        self.details = details
        super().__init__(f"Invalid spec '{invalid_spec}': {details}")

    def __reduce__(self):
        return (InvalidMatchSpec, (self.invalid_spec, self.details))


_SPEC_RE = re.compile(r"^([^ =<>!~]+)?([><!=~ ].+)?$")
_BRACKET_RE = re.compile(r"^(.*)(\[.*\])$")
_NAME_RE = re.compile(r"^[A-Za-z0-9_.*\-]+$")
_VERSION_ATOM_RE = re.compile(r"^(?:==|=|!=|<=|>=|<|>|~=)?[A-Za-z0-9_.!+*\-]+$")


class MatchSpec:
    """Value object for a package match specification."""

    def __init__(self, spec: object = None, **kwargs: object) -> None:
        if isinstance(spec, MatchSpec):
            spec = spec.original_spec_str
        if not isinstance(spec, str):
            raise InvalidMatchSpec(str(spec), "not a string")
        self.original_spec_str: str = spec
        text = spec.split("#", 1)[0].strip()
        text = text.split(" if ", 1)[0].strip()
        brackets = ""
        m = _BRACKET_RE.match(text)
        if m:
            text, brackets = m.group(1).strip(), m.group(2)
        channel = ""
        if "::" in text:
            channel, text = text.rsplit("::", 1)
        m = _SPEC_RE.match(text)
        if m is None:
            raise InvalidMatchSpec(spec, "no package name found")
        name, rest = m.groups()
        if name is None:
            raise InvalidMatchSpec(spec, "no package name found")
        if not _NAME_RE.match(name):
            raise InvalidMatchSpec(spec, "invalid package name")
        version, build = "", ""
        if rest is not None:
            rest = re.sub(r"\s*([,|])\s*", r"\1", rest.strip())
            rest = re.sub(r"(==|!=|<=|>=|~=|<|>|=)\s+", r"\1", rest)
            parts = rest.split()
            if len(parts) > 2:
                raise InvalidMatchSpec(spec, "too many fields")
            if parts:
                version = parts[0]
                build = parts[1] if len(parts) > 1 else ""
            for atom in re.split(r"[,|]", version):
                if not _VERSION_ATOM_RE.match(atom):
                    raise InvalidMatchSpec(spec, "invalid version spec")
        if brackets:
            bm = re.fullmatch(r"\[\s*version\s*=\s*(['\"]?)([^'\"\]]*)\1\s*\]", brackets)
            if bm:
                version, brackets = bm.group(2), ""
        self._name = name.lower()
        self._key = (channel, self._name, version, build, brackets)

    @property
    def name(self) -> str:
        return self._name

    @property
    def version(self) -> str:
        return self._key[2]

    def __eq__(self, other: object) -> bool:
        return isinstance(other, MatchSpec) and self._key == other._key

    def __hash__(self) -> int:
        return hash(self._key)

    def __str__(self) -> str:
        return self.original_spec_str

    def __repr__(self) -> str:
        return f'MatchSpec("{self.original_spec_str}")'
