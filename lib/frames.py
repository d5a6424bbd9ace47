"""Constructs around a hole, nested, with small probes in the hole: what a token means depends on the
constructs around it, and each of them changes or keeps a part of that."""
from parse import frame

# (before, after) of holes: S a statement list, E an assignment expression; SS is a statement with a
# statement hole, SE a statement with an expression hole, and so on.
SS = [("function f ( ) {", "}"), ("function * f ( ) {", "}"), ("async function f ( ) {", "}"), ("async function * f ( ) {", "}"),
      ("{", "}"), ("if ( a ) {", "}"), ("for ( ; ; ) {", "}"), ("class b { m ( ) {", "} }"), ("class b { * m ( ) {", "} }"),
      ("class b { async m ( ) {", "} }"), ("class b { async * m ( ) {", "} }"), ("class b { static m ( ) {", "} }"), ("class b { get m ( ) {", "} }"), ("class b { set m ( a ) {", "} }"),
      ("class b extends c { constructor ( ) {", "} }"), ("class b extends c { m ( ) {", "} }"), ("class b { constructor ( ) {", "} }"), ("class b extends c { static constructor ( ) {", "} }"),
      ("switch ( a ) { case b :", "}"), ("try {", "} catch { }"), ("try { } catch ( a ) {", "}"),
      ("'use strict' ; {", "}"), ("function f ( ) { 'use strict' ;", "}"), ("a : {", "}"), ("do {", "} while ( a )")]
SE = [("", ";"), ("a =", ";"), ("for (", "; ; ) ;"), ("for ( a =", "; ; ) ;"), ("for ( var a =", "; ; ) ;"), ("for ( ;", "; ) ;"), ("for ( ; ;", ") ;"),
      ("for ( a in", ") ;"), ("for ( a of", ") ;"), ("for ( a [", "] in b ) ;"), ("if (", ") ;"), ("while (", ") ;"), ("do ; while (", ")"), ("switch (", ") { }"),
      ("switch ( a ) { case", ": }"), ("throw", ";"), ("function f ( a =", ") { }"), ("function * f ( a =", ") { }"), ("async function f ( a =", ") { }"),
      ("class b extends (", ") { }"), ("class b { [", "] ( ) { } }"), ("class b { m ( a =", ") { } }"), ("class b extends c { constructor ( a =", ") { } }"),
      ("class b { * m ( a =", ") { } }"), ("class b { async m ( a =", ") { } }"), ("class b { set m ( a =", ") { } }"),
      ("var { a =", "} = b ;"), ("let [ a =", "] = b ;"), ("var { [", "] : a } = b ;"), ("const a =", ";"), ("with (", ") ;")]
ES = [("function ( ) {", "}"), ("function * ( ) {", "}"), ("async function ( ) {", "}"), ("async function * ( ) {", "}"), ("( ) => {", "}"), ("async ( ) => {", "}"), ("a => {", "}"),
      ("{ m ( ) {", "} }"), ("{ * m ( ) {", "} }"), ("{ async m ( ) {", "} }"), ("{ async * m ( ) {", "} }"), ("{ get m ( ) {", "} }"), ("{ set m ( a ) {", "} }"),
      ("class extends c { constructor ( ) {", "} }"), ("class { m ( ) {", "} }"), ("class { static m ( ) {", "} }"), ("function ( ) { 'use strict' ;", "}")]
EE = [("(", ")"), ("[", "]"), ("( ) =>", ""), ("async ( ) =>", ""), ("a =>", ""), ("a ?", ": b"), ("a ? b :", ""), ("{ a :", "}"), ("{ [", "] : a }"), ("{ ...", "}"), ("a [", "]"), ("f (", ")"), ("f ( ...", ")"),
      ("`h${", "}e`"), ("a `h${", "}e`"), ("class extends (", ") { }"), ("function ( a =", ") { }"), ("function * ( a =", ") { }"), ("async function ( a =", ") { }"),
      ("( a =", ") => a"), ("async ( a =", ") => a"), ("{ m ( a =", ") { } }"), ("{ * m ( a =", ") { } }"), ("a =", ""), ("[ a =", "] = b"), ("{ a =", "} = b"), ("{ [", "] ( ) { } }"), ("{ get [", "] ( ) { } }"), ("new a (", ")"), ("a ?. [", "]"), ("a ?. (", ")"), ("import (", ")"),
      ("class { [", "] ( ) { } }"), ("a ||", ""), ("typeof (", ")")]
KIND = {'S': {'S': SS, 'E': SE}, 'E': {'S': ES, 'E': EE}}

def chains(depth, hole, goal='S'):
    """All nestings of that many constructs ending in such a hole."""
    if depth == 0:
        if goal == hole: yield ("", "")
        return
    for k in 'SE':
        for b, a in KIND[goal][k]:
            # at the beginning of a statement these would be read as something else
            for b2, a2 in chains(depth - 1, hole, k):
                if k == 'E' and b == '' and b2.split(' ')[0] in ('{', 'function', 'class', 'async'): b, a = '(', ') ;'
                yield (b + ' ' + b2).strip(), (a2 + ' ' + a).strip()

def frames(probes, rng, n, depths=((1, 1.0), (2, .6), (3, .4)), prefixes=()):
    """n frames: nestings of each depth in equal shares of probes [(hole, slots)]."""
    out, seen = [], set()
    table = {}
    for d, share in depths:
        pool = [(h, sl, c) for h, sl in probes for c in table.setdefault((d, h), list(chains(d, h)))]
        k = int(n * share) if share < 1 else len(pool)
        out += pool if k >= len(pool) else rng.sample(pool, k)
    for h, sl, (b, a) in out:
        for g in ('Script',):
            yield frame(b, sl, a, g)

def sl(s):
    """'x|y z' -> slots [{x, y}, {z}]"""
    return [{x for x in t.replace('@', ' ').split('|') if x} for t in s.replace('use strict', 'use@strict').split()]

def P(hole, *ss): return [(hole, sl(s)) for s in ss]
WORDS = 'yield|await|a|let|static|async'
PROBES = {
 'C07': P('E', 'yield|await|let|static|of', 'yield|await a|1|( a|)', 'yield|await * a', 'yield|await|async => a', 'async yield|await|a => a', '{ yield|await|let|static|if }', '{ yield|await|if : a }', 'a . yield|await|if|let', 'yield|await ( a )', 'function yield|await|let|a ( ) { }', 'class yield|await|let|a { }', '( yield|await ) => a')
      + P('S', 'var yield|await|let|static|of ;', 'let yield|await|let|static|a ;', 'yield|await|let|a : ;', 'yield|await a|[|( 1|] ;', 'function yield|await|let|a ( ) { }', 'class yield|await|let|a { }', 'let [ yield|await|a ] = a ;', 'var { yield|await|let } = a ;', 'try { } catch ( yield|await ) { }', 'for|await ( await|let|yield of|in a ) ;', 'for await ( a of b ) ;', 'break yield|await|a ;', 'return|throw yield|await|a ;'),
 'C08': P('E', 'super . a', 'super ( )', 'super [ a ]', 'delete|typeof a', 'delete ( a )', 'delete a . b', 'a|eval|1|this|arguments =|++ 1|;', '++|-- a|eval|1|this', 'new . target', '[ a|1|eval ] = b', '{ a|1 :|= b|1 } = c', '( a|eval|1 ) = b', '{ m ( a|b , b|a ) { } }', '{ m ( a , b|c , b|c ) { } }', '{ m ( a , ... b|a ) { } }', "{ m ( a|[|{ ) { 'use strict' } }", '{ get m ( a|) {|) {|} }|}')
      + P('S', 'return|throw ;|a ;', 'with ( a ) ;', 'super ( ) ;', 'super . a ;', 'delete a ;', 'const|let|var a|[|{ =|;|]|} ;|a|=', 'eval|arguments|a = 1 ;', "function f ( a , a|b ) { }", "'use strict'|'s' ; with|delete|if ( a ) ;", "function f ( a|[|{ =|)|]|} b|{|) ) { 'use strict' }", 'return super . a ;', 'break|continue ;'),
 'C09': P('E', 'a in b', 'a in b in c', '( a in b )', 'a ? b|( in|: c', '( a ) => a', '( a , b ) =|=> c', '{ a } =|=> b', '[ a ] =|in b', 'async ( a ) =>|in|; a|{ }|b', 'async a => a', 'async => a|{ }|;', '( { a = 1 } ) =>|= a', '( { a } ) =>|=|. a', '[ { a = 1 } ] = b', '{ a : { b = 1 } } = c', 'a => a in|, b', '( a => { } )', '( ) => { }')
      + P('S', 'for ( a|var|let in|of|a b|in|of c|)|; ) ;', 'for ( var|let|const a in|of|= b ) ;', 'for ( let|async of|in|; a ) ;', 'for ( [ a ] of|in b ) ;', 'for ( { a } of|in|= b ) ;', 'for ( a . b in|of c ) ;', '{ a } ;', '{ a : b } ;', 'while ( a in b ) ;', 'a in b ;', 'var a = b in c ;', 'let [ a ] = b ;', 'let { a = 1 } = b ;', 'async function|( a|) ( ) { }'),
 'C05': P('S', 'if ( a ) b ; else|a c|; ;|c', 'do ; while ( a ) ;|b', 'a : b ;', 'class a { static|get|set|async|* m ( ) { } }', 'class a { static|get|set|async|; ( ) { } }', 'class a { static get|set|async|* m ( ) { } }', 'switch ( a ) { case|default b|: :|; ;|break ;|} }|;', 'try { } catch|finally {|( a|} }|) {|} }|{ }', 'var a =|,|; b ,|; c|; ;|c', "'use strict'|'s' ;", 'function|async f|function (|f )|( {|) }|{ }', 'let|const|var [ a , ... b ] = c ;', 'let|const|var { a , ... b } = c ;', 'let { a : b = c } = f ;', 'let [ , ,|a ] = b ;', 'throw|return a|;|{ ;|}', 'debugger|break|continue ;|a ;', 'for ( a|;|var ;|a ;|=|a a|)|; ;|)|a )|; ;|}')
      + P('E', 'function|class a (|{ )|} {|; }|;', 'class { get|set|static m|( (|) )|{ {|} }|; }', '{ get|set|async|* m ( ) { } }', '{ get|set|async ( ) { } }', '{ async * m|get|[ ( ) { } }', '{ [ a ] :|( b|) }|{ ;|} }', "{ 's'|1 :|( b|) }|{ ;|} }", 'function ( a , ... b|[ )|] )|{ { }', 'async|* function|( *|( (|a )|( {|) }|{ }', '( a , ... b|[|{ )|a|] =>|)|} a|=> a'),
}
