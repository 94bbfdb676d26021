#!/usr/bin/env python3
"""Writes harness/types/v.h and harness/types/v_desc.h: the same records as built at versions 1 to 4."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', 'harness', 'types')
# (record, base?, versioned, [(asOf, until, type, name, default)])
RECS = [
    ('Plain', None, False, [  # takes the version of what it is nested in
        (0, 0, 'std::uint32_t', 'foo', '1'),
        (2, 0, 'std::uint64_t', 'p2', '12'),
        (0, 1, 'std::uint16_t', 'p1', '11'),
        (3, 0, 'std::map<std::string, int>', 'p3', ''),
        (4, 0, 'bool', 'p4', 'false'),
    ]),
    ('Own', None, True, [  # carries its own version
        (0, 0, 'std::string', 'name', '"own"'),
        (2, 0, 'std::uint16_t', 'own2', '21'),
        (3, 0, 'std::optional<int>', 'own3', ''),
        (4, 0, 'std::string', 'own4', '"own4"'),
    ]),
    ('Low', None, 2, [  # has not changed since version 2
        (0, 0, 'std::uint16_t', 'low', '6'),
        (2, 0, 'std::string', 'low2', '"low2"'),
        (0, 1, 'bool', 'low1', 'true'),
    ]),
    ('Mid', None, False, [  # not versioned itself, with versioned and conditional parts
        (0, 0, 'Plain', 'plain', ''),
        (3, 0, 'Low', 'low', ''),
        (0, 0, 'Own', 'own', ''),
        (0, 2, 'std::string', 'mid2', '"mid2"'),
    ]),
    ('Base', None, True, [
        (0, 0, 'int', 'base', '5'),
        (2, 0, 'std::string', 'base2', '"base2"'),
        (3, 0, 'std::vector<std::string>', 'base3', ''),
        (4, 0, 'double', 'base4', '4.5'),
    ]),
    ('Rec', 'Base', True, [
        (0, 0, 'std::uint32_t', 'a', '1'),
        (0, 0, 'Plain', 'plain', ''),
        (0, 0, 'Own', 'own', ''),
        (2, 0, 'std::string', 'new2', '"new2"'),
        (2, 0, 'std::uint8_t', 'new2b', '22'),
        (0, 1, 'std::string', 'old1', '"old1"'),
        (0, 2, 'std::uint32_t', 'old2', '2'),
        (0, 2, 'Plain', 'oldPlain', ''),
        (3, 0, 'std::map<std::string, int>', 'new3', ''),
        (3, 0, 'std::uint8_t', 'new3b', '33'),
        (4, 0, 'std::optional<std::string>', 'new4', ''),
        (4, 0, 'Plain', 'plain4', ''),
        (2, 3, 'std::vector<int>', 'mid', ''),
        (0, 0, 'Low', 'low', ''),
        (2, 0, 'Mid', 'middle', ''),
    ]),
    ('Heir', 'Low', True, [  # base with a lower version
        (0, 0, 'std::string', 'heir', '"heir"'),
        (2, 0, 'Low', 'heir2', ''),
        (4, 0, 'std::vector<int>', 'heir4', ''),
    ]),
    ('Alone', None, True, [  # no bases, only conditional members
        (3, 0, 'std::uint32_t', 'x3', '3'),
        (0, 2, 'std::string', 'o2', '"o2"'),
        (4, 0, 'std::vector<int>', 'x4', ''),
    ]),
    # markers add up until they contradict each other; the last element is what is written before the member
    ('Win', None, True, [
        (0, 0, 'std::uint16_t', 'w', '1'),
        (2, 2, 'std::string', 'once2', '"once2"', ['as_of_version(2)', 'until_version(2)']),
        (2, 3, 'std::uint16_t', 'two3', '23', ['until_version(3)']),
        (3, 3, 'std::uint8_t', 'once3', '33', ['as_of_version(3)']),
        (4, 0, 'std::string', 'w4', '"w4"', ['as_of_version(4)']),
        (0, 1, 'std::uint8_t', 'w1', '11', ['until_version(1)']),
        (0, 2, 'std::string', 'w2', '"w2"', ['until_version(2)']),
        (2, 2, 'std::uint8_t', 'again2', '22', ['as_of_version(2)']),
        (2, 2, 'Low', 'low2', '', []),
    ]),
]
h = ['// Written by tools/mkversions.py: the same records as built at versions 1 to 4.', '#pragma once', '#include "common.h"', '']
d = ['// Written by tools/mkversions.py.', '#pragma once', '#include "../bind.h"', '#include "v.h"', 'namespace bind {']
for v in (1, 2, 3, 4):
    h += [f'namespace v{v} {{', 'using ReflectiveRapidJSON::BinarySerializable;']
    for rec, base, versioned, fields in RECS:
        bs = (f'public {base}, ' if base else '') + f'public BinarySerializable<{rec}' + (f', {min(v, versioned) if versioned is not True else v}' if versioned else '') + '>'
        h.append(f'struct {rec} : {bs} {{')
        d.append(f'template <> struct Desc<v{v}::{rec}> : DescBase {{')
        d.append(f'    using T = v{v}::{rec};')
        d.append(f'    static constexpr const char *name = "v{v}::{rec}";')
        if base:
            d.append(f'    using bases = Bases<v{v}::{base}>;')
        if versioned:
            d.append(f'    static constexpr std::uint64_t version = {v if versioned is True else min(v, versioned)};')
        fs = []
        cur = (0, 0)
        for a, u, t, n, df, *marks in fields:
            if a > v:
                continue
            if marks:
                h += [f'    {m}:' for m in marks[0]]
            elif (a, u) != cur:
                if a and u:
                    h.append(f'    as_of_version({a}):')
                    h.append(f'    until_version({u}):')
                elif a:
                    h.append(f'    as_of_version({a}):')
                else:
                    h.append(f'    until_version({u}):')
                cur = (a, u)
            h.append(f'    {t} {n}' + (f' = {df}' if df else '') + ';')
            fs.append(f'FV("{n}", &T::{n}, {a}, {u})')
        h.append('};')
        d.append(f'    static auto fields() {{ return std::make_tuple({", ".join(fs)}); }}')
        d.append('};')
    h += [f'}} // namespace v{v}', '']
d.append('} // namespace bind')
open(os.path.join(out, 'v.h'), 'w').write('\n'.join(h) + '\n')
open(os.path.join(out, 'v_desc.h'), 'w').write('\n'.join(d) + '\n')
