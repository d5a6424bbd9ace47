"""One sentence for about every alternative of the grammar, and all sentences next to them: one token
more, less, other, or two exchanged."""
import parse

EXPR = """a + b ;|a + b * c ;|a * b + c ;|a || b && c ;|a ?? b ;|a ** b ;|- a * b ;|! a . b ;|typeof a ;|void 0x1F ;|delete a . b ;|++ a ;|a -- ;|a [ b ] ++ ;
a ? b : c ;|a ? b : c ? x : y ;|a = b = c ;|a += b ;|a , b , c ;|( a , b ) ;|a < b in c ;|a instanceof b ;
a . b . c ;|a [ b , c ] ;|a ( b , c ) ;|a ( ... b , c ) ;|a ( b , ) ;|a ( ) ( ) . b ;|new a ;|new a ( ) ;|new a . b ( c ) . f ;|new new a ( ) ( ) ;|new ( a ( ) ) ;|a ?. b ;|a ?. [ b ] . c ;|a ?. ( b ) ( c ) ;|a ?. b ?. c ;
`t` ;|`h${ a }e` ;|`${ a }m${ b }e` ;|a `t` ;|a . b `h${ c }e` ;|new a `t` ;
[ ] ;|[ a , b ] ;|[ , a , , ] ;|[ ... a , b ] ;|( { } ) ;|( { a , b } ) ;|( { a : b , } ) ;|( { 's' : a , 1 : b } ) ;|( { [ a ] : b } ) ;|( { ... a , b } ) ;|( { if : a } ) ;
( { m ( ) { } } ) ;|( { get a ( ) { } , set a ( b ) { } } ) ;|( { * m ( ) { } } ) ;|( { async m ( ) { } } ) ;|( { async * m ( a ) { } } ) ;|( { get : a , set ( ) { } } ) ;|( { [ a ] ( ) { } } ) ;|( { get [ a ] ( ) { } } ) ;|( { async , get } ) ;
( function ( ) { } ) ;|( function f ( a , b ) { } ) ;|( function * ( ) { } ) ;|( async function ( ) { } ) ;|( async function * f ( ) { } ) ;|( class { } ) ;|( class a extends b { } ) ;|( class extends b . c { m ( ) { } } ) ;
a => b ;|( ) => a ;|( a ) => a ;|( a , b ) => { } ;|( a , ... b ) => { } ;|( a = 1 ) => a ;|( { a } ) => a ;|( [ a , b ] ) => a ;|( { a : b = c } , [ x ] = y ) => a ;|async a => b ;|async ( ) => a ;|async ( a , b ) => { } ;|async ( { a = 1 } ) => a ;|async ( a ) ;|async ;|a => ( { } ) ;|( a ) => b => c ;|a = ( b ) => c ;
[ a , b ] = c ;|[ a = 1 , ... b ] = c ;|[ a . b , [ c ] ] = x ;|( { a , b } = c ) ;|( { a = 1 } = c ) ;|( { a : b . c , 's' : [ x ] } = y ) ;|( { a : b = 1 , } = c ) ;|[ , a ] = b ;|( { ... a } = b ) ;
this ;|null ;|/r/ ;|/r/ . a ;|a / b / c ;|( a ) ;|new . target ;|import ( a ) ;|a /= b ;"""
STMT = """;|{ }|{ a ; b ; }|{ ; }|var a ;|var a = b , c ;|let a = b ;|let a , b = c ;|const a = b ;|const a = b , c = 1 ;|var [ a , b ] = c ;|let { a , b : c } = x ;|const [ a = 1 , ... b ] = c ;|var { a = 1 , ... b } = c ;|let [ , a ] = b ;|let { [ a ] : b , 's' : c } = x ;|var { a : { b } } = c ;
if ( a ) b ;|if ( a ) b ; else c ;|if ( a ) { } else if ( b ) { } else { }|if ( a ) if ( b ) ; else ;|do a ; while ( b ) ;|do { } while ( a )|while ( a ) b ;|while ( a ) { break ; }
for ( ; ; ) a ;|for ( a ; b ; c ) ;|for ( a = 1 , b = c ; ; ) { }|for ( var a = 1 , b ; ; ) ;|for ( let a = 1 ; a < b ; a ++ ) ;|for ( const a = 1 ; ; ) ;|for ( a in b ) ;|for ( a . b in c , x ) ;|for ( var a in b ) ;|for ( let a in b ) ;|for ( const [ a ] in b ) ;|for ( a of b ) ;|for ( var a of b ) ;|for ( let { a } of b ) ;|for ( const a of b ) { }|for ( [ a , b ] of c ) ;|for ( { a } of b ) ;|for ( let of a ) ;|for ( let in a ) ;|for ( async ( ) ; ; ) ;
switch ( a ) { }|switch ( a ) { case b : c ; }|switch ( a ) { default : }|switch ( a ) { case b : case c : default : x ; }|switch ( a ) { default : b ; case c : x ; break ; }|switch ( a ) { case b , c : { } }
a : b ;|a : { break a ; }|a : for ( ; ; ) continue a ;|a : b : ;|while ( a ) continue ;|try { } catch { }|try { } catch ( a ) { }|try { } catch ( { a } ) { }|try { } catch ( [ a ] ) { b ; }|try { } finally { }|try { a ; } catch ( b ) { } finally { c ; }|throw a ;|throw a , b ;|debugger ;|with ( a ) b ;|with ( a ) { }
function f ( ) { }|function f ( a , b ) { return a ; }|function f ( a , ) { return ; }|function f ( a = 1 , ... b ) { }|function f ( { a } , [ b ] = c ) { }|function * f ( ) { yield ; }|function * f ( ) { yield a ; yield * b ; }|function * f ( ) { a = yield b ; }|async function f ( ) { await a ; }|async function f ( ) { for await ( a of b ) ; }|async function f ( ) { for await ( let a of b ) { } }|async function * f ( ) { yield await a ; }|function f ( ) { 'use strict' ; }|function f ( ... [ a ] ) { }|function f ( ) { new . target ; }|async function f ( ) { await a ** b ; }|function f ( ) { return a , b ; }
class a { }|class a { ; }|class a extends b { }|class a extends b . c { }|class a extends b ( ) { }|class a extends ( b , c ) { }|class a { m ( ) { } }|class a { m ( ) { } x ( b ) { } ; }|class a { static m ( ) { } }|class a { get b ( ) { } set b ( c ) { } }|class a { static get b ( ) { } }|class a { * m ( ) { } }|class a { async m ( ) { } }|class a { async * m ( ) { yield ; } }|class a { static async * m ( ) { } }|class a { 's' ( ) { } 1 ( ) { } }|class a { [ b ] ( ) { } static [ c ] ( ) { } }|class a { constructor ( b ) { } }|class a extends b { constructor ( ) { super ( ) ; } }|class a extends b { m ( ) { super . m ( ) ; super [ c ] ; } }|class a { get ( ) { } set ( ) { } static ( ) { } async ( ) { } }|class a { static get ( ) { } static static ( ) { } }|class a { if ( ) { } }|class a extends class { } { }|class a extends b { constructor ( c ) { super ( ... c ) . x ; } }
'use strict' ; a ;|'s' ; 'use strict' ; a = 1 ;|a ; b ;|let ;|let ( ) ;|yield : a ;|yield = await ;|async function f ( ) { } a ;"""
MOD = """import 's' ;|import a from 's' ;|import * as a from 's' ;|import { } from 's' ;|import { a } from 's' ;|import { a as b , c } from 's' ;|import { a , } from 's' ;|import { default as a } from 's' ;|import { if as a } from 's' ;|import a , { b } from 's' ;|import a , * as b from 's' ;|import { as as as } from 's' ;|import from from 's' ;|import ( a ) ;|import . meta ;|import { from } from 's' ; import a from 's' ;
export * from 's' ;|export * as a from 's' ;|export * as default from 's' ;|export { } ;|export { a , b as c } ;|export { a as default , } ;|export { a } from 's' ;|export { a as if } from 's' ;|export { default } from 's' ;|export var a = b ;|export let a , b ;|export const a = b ;|export function f ( ) { }|export function * f ( ) { }|export async function f ( ) { }|export class a { }|export class a extends b { }
export default a ;|export default a = b ;|export default function ( ) { }|export default function f ( ) { }|export default function * ( ) { }|export default async function ( ) { }|export default async function * f ( ) { }|export default class { }|export default class a extends b { }|export default ( a ) => b ;|export default async a => b ;|export default [ a ] ;|export default ( a , b ) ;|export default async ( ) ;
import 's' ; export default a ; b ;|await : a ;|var a ; export { a } ; import 's' ;"""

TOKENS = set("""break case catch class const continue default delete do else export extends finally for function if import in instanceof new null return super switch this throw try typeof var while with let
static async await yield get set of from as target 1 's' 'use strict' /r/ `t` `h${ }m${ }e` { } ( ) [ ] . ... ; , < + - * / ** ++ ! && ?? ? ?. : = += => a b eval""".replace('use strict', 'use@strict').split())
TOKENS = {t.replace('@', ' ') for t in TOKENS}

def split(s): return [t.replace('@', ' ') for t in s.replace('use strict', 'use@strict').split()]
def sentences(text): return [split(s) for s in text.replace('\n', '|').split('|')]

def F(sl, goal): return {'goal': goal, 'sigma': set(), 'max': len(sl), 'prefix': [], 'skip': set(), 'nl': False, 'slots': [sorted(x) for x in sl]}

def neighbours(w, goal):
    one = [[t] for t in w]
    for i in range(len(w) + 1):
        yield F(one[:i] + [TOKENS] + one[i:], goal)
        if i < len(w):
            yield F(one[:i] + [TOKENS | {w[i]}] + one[i + 1:], goal)
            yield F(one[:i] + one[i + 1:], goal)
        if i + 1 < len(w): yield F(one[:i] + [one[i + 1], one[i]] + one[i + 2:], goal)

ALL = ((EXPR, 'Script'), (STMT, 'Script'), (MOD, 'Module'))
def near(texts, rng=None, pick=None):
    """The neighbours of the sentences of the texts, or of so many of each."""
    out = []
    for text, goal in texts:
        ws = sentences(text)
        if pick: ws = rng.sample(ws, min(pick, len(ws)))
        out += [f for w in ws for f in neighbours(w, goal)]
    return out

def shortened(texts, rng=None, pick=None):
    """The sentences and what is left of them without one token."""
    out = []
    for text, goal in texts:
        ws = sentences(text)
        if pick: ws = rng.sample(ws, min(pick, len(ws)))
        for w in ws:
            one = [[t] for t in w]
            out += [F(one[:i] + one[i + 1:], goal) for i in range(len(w)) if len(w) > 1] + [F(one, goal)]
    return out
