"""Bounded languages and random corpora for each property that the parser decides."""
from parse import cfg, ALL, SKIP, KW, LITS, PUNCTS, NAMES

def L(alphabet, n, more=0, **k):
    """(quick configuration, thorough configuration)"""
    return cfg(alphabet, n, **k), cfg(alphabet, n + more, **k)

EXPR = [
    L("a + * ( ) -", 6, 1), L("a || && ?? | ( )", 6, 1), L("a ** - ++ typeof ( )", 5, 1),
    L("a . ( ) [ ] new", 6, 1), L("a ?. ( ) [ ] . `t`", 5, 1), L("a ?. new ( ) super import", 5, 1),
    L("a ? : = , 1", 7, 1), L("a => ( ) , =", 6, 1), L("a < in instanceof == != & ^ << >>> % /", 5, 0),
    L("[ ] , ... a =", 6, 1), L("a `h${ }m${ }e` `t` + `${ }`", 6, 1),
    L("( { } a : , 1 's' ) =", 6, 1), L("a ( ) { } function ;", 7, 1), L("a ( ) { } async function * =>", 6, 1),
    L("- + ! ~ delete void typeof a ++ --", 4, 1),
    L("a = += -= *= **= /= %= <<= >>= >>>= &= |= ^= 1", 4, 0),
    L("a /r/ / /= =", 5, 1), L("( ) class a { } extends ;", 6, 1),
    L("super ( ) . a [ ] } new", 6, 0, prefix="class a extends b { constructor ( ) {"),
    L("super ( ) . a } ] [ =>", 6, 0, prefix="class a { m ( ) {"),
    L("yield * a , } : ? + ( )", 5, 1, prefix="function * f ( ) {"),
    L("await a , } ** + ( ) -", 6, 0, prefix="async function f ( ) {"),
    L("this null true false 1 .5 0x1F 2e3 's' \"t\" + ( )", 3, 1),
    L("import ( ) . meta a", 5, 1, goal='Module'), L("new . target ( ) a }", 6, 0, prefix="function f ( ) {"),
    L("a >= <= === !== > >> | - % **", 5, 0),
]
STMT = [
    L("{ } ; a var = ,", 6, 1), L("if else ( a ) ; { }", 8, 1), L("do while ( a ) ; { }", 7, 1),
    L("( ) ; a var in of", 7, 0, prefix="for"), L("for ( ) ; a var in of", 6, 1), L("for ( ) let a of = [ ]", 6, 1), L("for ( ) const { } a of in", 7, 1),
    L("switch ( a ) { } case default :", 8, 1), L("a : b ; break continue { }", 5, 1),
    L("try catch finally { } ( a )", 9, 1), L("throw return a ; debugger with ( )", 5, 1),
    L("return a ; , }", 5, 2, prefix="function f ( ) {"),
    L("function a ( ) { } , ... * b", 7, 1), L("async function a ( ) { } *", 7, 1),
    L("let const var a = [ ] { } ,", 5, 1), L("let [ ] { } , a = ...", 6, 1), L("let { } a : = , 's'", 6, 1),
    L("'s' 'use strict' ; \"t\" a , {", 5, 1), L("'use strict' ; } a '' ,", 5, 1, prefix="function f ( ) {"),
    L("a ( ) { } static get ; , }", 6, 1, prefix="class b {"), L("set a ( ) { } * async", 7, 0, prefix="class b {"),
    L("constructor ( ) { } 'constructor' static", 7, 0, prefix="class b {"),
    L("[ ] a 's' 1 ( ) { }", 7, 1, prefix="class b {"),
    L("( ) a : , get set { } async", 7, 0, prefix="( {"), L("( ) * [ ] a { } , ...", 7, 0, prefix="( {"),
    L("a = [ ] { } , ... ) (", 5, 1, prefix="function f ("),
    L("( ) a of ; } let [ ]", 7, 0, prefix="async function f ( ) { for await"), L("( a of ) ;", 6, 0, prefix="for await"), L("( a of ) ; }", 5, 0, prefix="function * f ( ) { for await"),
]
ASI = [
    L("a ; ++ + ( )", 5, 0, nl=True), L("a ; { } =", 5, 1, nl=True), L("var a = ; , 1", 4, 1, nl=True),
    L("let a = ; [ ]", 4, 1, nl=True), L("do a while ( ) ;", 6, 1, nl=True), L("break continue a ; { }", 4, 1, nl=True),
    L("throw a ; + debugger", 4, 1, nl=True), L("if ( a ) else ;", 6, 1, nl=True), L("for ( ; ) a", 6, 1, nl=True),
    L("return a ; + }", 4, 1, nl=True, prefix="function f ( ) {"), L("yield * a ; }", 4, 1, nl=True, prefix="function * f ( ) {"),
    L("await a ; + }", 4, 1, nl=True, prefix="async function f ( ) {"),
    L("a => { } ( ) ;", 5, 0, nl=True), L("async a => ( ) {", 5, 0, nl=True), L("async function a ( ) { } ;", 6, 0, nl=True),
    L("a `t` [ ] . ?.", 4, 1, nl=True), L("a / /r/ ; = -", 4, 1, nl=True), L("'s' ; a + (", 4, 1, nl=True),
    L("import 's' ; a from * as", 4, 1, nl=True, goal='Module'), L("export default a ; * from 's'", 4, 1, nl=True, goal='Module'),
    L("export { } a from 's' ;", 6, 0, nl=True, goal='Module'),
    L("async get a ( ) { } set", 6, 0, nl=True, prefix="class b {"), L("a in instanceof ; ? :", 4, 1, nl=True),
    L("function a ( ) { } ; +", 5, 1, nl=True), L("class a { } ; (", 5, 1, nl=True),
    L("a , ; -- ! const", 4, 1, nl=True), L("yield await let a ; =", 4, 0, nl=True),
]
NAMED = [
    L("yield await let static = ( ) ;", 4, 1), L("of get set from = . ( )", 4, 1), L("as target async meta = ( ) .", 4, 1),
    L("a . if class function in this null", 4, 1), L("( { if : yield , } ) await let", 6, 0),
    L("yield * a , } ) ] : ( [", 5, 0, prefix="function * f ( ) {"), L("yield ( ) => { } a =", 6, 0, prefix="function * f ( ) {"),
    L("yield function ( ) { } a", 7, 0, prefix="function * f ( ) {"), L("yield ( { } ) : a ,", 7, 0, prefix="function * f ( ) {"),
    L("await function ( ) { } a", 7, 0, prefix="async function f ( ) {"), L("await => ( ) a } { ,", 6, 0, prefix="async function f ( ) {"),
    L("await yield ( ) { } * async a", 5, 1, prefix="async function * f ( ) {"),
    L("( ) { } yield await a =", 5, 0, prefix="function * f"), L("( ) { } yield await a =", 5, 0, prefix="async function f"),
    L("function * yield await ( ) { } async", 6, 1), L("yield let static implements a = ;", 4, 1, prefix="'use strict' ;"),
    L("var let yield await static a ,", 4, 1, prefix="'use strict' ;"), L("var let yield await static of =", 4, 1),
    L("class yield let static await { } extends", 5, 1), L("class { } yield static let = ( )", 6, 0),
    L("static get set async ( ) { } *", 6, 1, prefix="class a {"), L("yield await let if ( ) { }", 6, 0, prefix="class a {"),
    L("get set async static ( ) { } , :", 6, 0, prefix="( {"), L("yield await let implements , : } ) a", 5, 0, prefix="( {"),
    L("yield await let implements , : } ) a (", 5, 0, prefix="'use strict' ; ( {"),
    L("let [ ] = a ; {", 5, 1), L("async ( ) => a , function", 5, 1), L("async await => ( ) , a", 6, 0),
    L("await a ; = ( ) yield", 4, 1, goal='Module'), L("{ } as from , a default yield 's' if", 6, 1, goal='Module', prefix='import'),
    L("let of in a ) ;", 6, 1, prefix="for ("), L("async of a ) ; =>", 6, 1, prefix="for ("), L("var yield await of in a ) ;", 5, 1, prefix="for ("),
    L("yield : ; await let static a", 4, 1), L("break continue yield await let ; a", 3, 1),
    L("yield : ; await a break", 4, 1, prefix="function * f ( ) {"),
]
EARLY = [
    L("delete a ( ) . typeof ;", 5, 1), L("delete a ( ) . typeof ;", 5, 1, prefix="'use strict' ;"),
    L("a ( ) , { } = ... b", 5, 0, prefix="function f ("), L("a ( ) , { } = ... b", 6, 0, prefix="( { m ("),
    L("a , ) { } 'use strict' ; =", 6, 0, prefix="( { m ("), L("a , ) { } 'use strict' ; =", 6, 0, prefix="class f { m ("),
    L("a ++ -- = += 1 ( ) this", 5, 0), L("a ++ = ( ) . ?. new ,", 5, 0), L("eval arguments = ++ ( ) , ;", 4, 1, prefix="'use strict' ;"),
    L("eval arguments = ++ ( ) , ;", 4, 1), L("super ( ) . a ;", 5, 1), L("super ( ) . a } =>", 5, 1, prefix="function f ( ) {"),
    L("super ( ) . a } =>", 5, 1, prefix="class b { constructor ( ) {"), L("super ( ) . a } =>", 5, 1, prefix="class b extends c { constructor ( ) {"),
    L("super ( ) . a } ]", 6, 0, prefix="class b extends c { m ( ) {"), L("super ( ) . a } ]", 6, 0, prefix="( { m ( ) {"),
    L("super ( ) . a } [ ] {", 6, 0, prefix="( { get"), L("super ( ) => { } . a", 7, 0, prefix="class b extends c { constructor ( ) {"),
    L("return a ; { } ( )", 5, 1), L("return a => ( ) { }", 6, 1), L("return ; } class { }", 5, 1, prefix="function f ( ) {"),
    L("return ; } ) => ( ) {", 6, 0, prefix="a = ( ) => {"),
    L("const let var a [ ] { } = ;", 4, 1), L("let [ ] { } = ; ) const of in", 6, 1, prefix="for ("),
    L("with ( a ) ; { }", 6, 1), L("with ( a ) ; { }", 6, 1, prefix="'use strict' ;"), L("with ( a ) ; }", 6, 0, prefix="function f ( ) { 'use strict' ;"),
    L("with ( a ) ;", 6, 0, goal='Module'), L("delete a ; ( )", 5, 1, goal='Module'), L("delete a ; }", 4, 1, prefix="class b { m ( ) {"),
    L("[ a ] = ( ) 1 , ;", 6, 0), L("( { a } = ) : , 1", 7, 0), L("( { a = } ) => ,", 7, 0),
]
COVER = [
    L("( ) a , => = ...", 6, 1), L("( a ) => { } ,", 6, 1), L("( [ a ] ) => , =", 7, 0), L("( { a } ) => = ,", 7, 0), L("( { a : } ) => =", 8, 0), L("a : } ) => = b {", 7, 1, prefix="( {"),
    L("[ a ] = , ...", 6, 1), L("[ a ] = . ( )", 6, 1), L("[ a = 1 ] , {", 6, 1), L("( { a : } ) = [ ]", 8, 0), L("a : b } ) = [ ] {", 6, 2, prefix="( {"),
    L("( { a , ... } ) = .", 7, 0), L("( { 's' : a , } ) =", 7, 0), L("[ { } a : , ] =", 7, 0),
    L("async ( ) a => , =", 6, 1), L("async ( a ) => { } ...", 6, 1), L("async ( { a } ) => =", 7, 1), L("{ a } ) => = , ...", 7, 0, prefix="async ("), L("async ( [ a ] ) => =", 7, 1), L("[ a ] ) => = , ...", 7, 0, prefix="async ("),
    L("async a => ( ) . ?.", 5, 1), L("async function a ( ) { } ;", 6, 1), L("async * ( ) function { } =>", 6, 0),
    L("{ } a : ; ,", 5, 2), L("{ } ( ) a = ;", 6, 0), L("a in b ) ; ,", 6, 1, prefix="for ("), L("a of b ) ; = ,", 6, 1, prefix="for ("),
    L("[ a ] of in ) ; =", 7, 1, prefix="for ("), L("{ a } of ) ; = in", 7, 1, prefix="for ("), L("var a in of ; ) =", 6, 1, prefix="for ("), L("let in of a ) ; [ ]", 6, 1, prefix="for ("),
    L("( a ) of in ;", 7, 1, prefix="for ("), L("a . b of in ) ; (", 6, 1, prefix="for ("), L("( ( ) ) => a", 7, 1), L("a ? b : ( ) =>", 8, 0),
    L("yield ( ) => a } , [ ]", 6, 0, prefix="function * f ( ) {"),
]
MODULE = [
    L("import 's' ; a from *", 6, 0, goal='Module'), L("* as a from 's' , {", 6, 1, goal='Module', prefix='import'),
    L("{ } as a , from 's'", 7, 1, goal='Module', prefix='import'), L("} as a b , from 's' default", 7, 1, goal='Module', prefix='import {'), L(", { } from 's' as b", 7, 0, goal='Module', prefix='import a'),
    L("* as a from 's' ; default", 6, 1, goal='Module', prefix='export'), L("{ } as a , from 's'", 7, 1, goal='Module', prefix='export'), L("} as a b , from 's' default", 6, 1, goal='Module', prefix='export {'),
    L("export default a = ; , ( )", 5, 1, goal='Module'), L("export default function a ( ) { } *", 8, 0, goal='Module'),
    L("async function a ( ) { } *", 7, 0, goal='Module', prefix='export default'), L("export default class a { } extends", 7, 0, goal='Module'),
    L("export var let const a = ; ,", 6, 0, goal='Module'), L("function a ( ) { } async *", 7, 0, goal='Module', prefix='export'),
    L("export class a { } extends ;", 7, 0, goal='Module'), L("export default async => a ( ) {", 6, 0, goal='Module'),
    L("import ( ) . meta a ; 's'", 5, 0, goal='Module'), L("import export a { } 's' * from default", 5, 0),
    L("export default from of as ; { }", 5, 0, goal='Module'), L("from 's' , * as", 6, 0, goal='Module', prefix='import'),
    L("yield let static delete a ;", 4, 1, goal='Module'), L("if ( a ) { } import export 's'", 6, 0, goal='Module'),
]
REJECT = [
    L("a 1 + ( ) [ ] { } , ; =", 4, 1), L("function a ( ) { } =>", 6, 1), L("class a { } ( ) ; extends", 6, 0), L("var let const a , = ; in", 4, 1),
    L("if else for while do ( ) ; a", 5, 1), L("try catch finally { } ( ) a ;", 6, 0), L("switch case default : { } ( ) a", 6, 0),
    L("import export from as * { } , a 's' default", 4, 1, goal='Module'), L("new super this . ( ) a ?.", 5, 1),
    L("async await yield function * ( ) { }", 5, 1), L("`h${ }m${ }e` `t` a { } +", 5, 1), L("break continue return throw a : ; {", 4, 1),
    L("get set static async ( ) { } ,", 5, 0, prefix="class b {"), L("get set async * ( ) { } , : =", 5, 0, prefix="( {"),
]
LAYOUT = [L("a ; ++ + ( )", 4, 1, nl=True), L("async a => ( ) { }", 5, 0, nl=True), L("a / /r/ ; = }", 4, 1, nl=True),
    L("do while ( a ) ;", 6, 0, nl=True)]

S = lambda sigma, n, goal='Script', prefix='', skip=SKIP: cfg(sigma, n, goal=goal, prefix=prefix, skip=skip)
STM = set("break case catch const continue debugger default do else finally for if return switch throw try var while with let ;".split())
XSIG = ALL - STM - {'import', 'export'}
FEW = set("a b c x 1 's' + = , ( ) [ ] { } ; :".split())
RANDOM = [S(ALL, 30), S(ALL, 60), S(ALL, 40, prefix='async function * f ( ) {'), S(ALL, 40, prefix="'use strict' ;")]
RANDOM_X = [S(XSIG, 25, prefix='x ='), S(XSIG, 40), S(XSIG, 30, prefix='( a ,'), S(XSIG | {'}', ';'}, 30, prefix='async function * f ( ) {')]
RANDOM_S = [S(FEW | STM | {'of', 'in', 'function', 'class', '=>'}, 40), S(ALL, 50),
            S(FEW | STM | {'of', 'in', 'await', 'yield', 'async', 'function'}, 40, prefix='async function * f ( ) {')]
RANDOM_M = [S(FEW | set("import export default from as * class function async var let const => extends . meta".split()), 30, 'Module'), S(ALL, 40, 'Module')]
RANDOM_C = [S(FEW | set("=> ... async . for of in { } await yield".split()), 25), S(FEW | set("=> ... async . ?. function".split()), 30, prefix='( {')]
RANDOM_F = [S(FEW | set("class function async * get set static => extends super this yield await constructor return . new".split()), 40),
            S(FEW | set("class function async * get set static => extends super this yield await constructor return .".split()), 40, prefix='class b extends c {')]
SPANS = [
    L("a + ( ) , . [ ]", 5, 1), L("a ?. ( ) [ ] new `t`", 4, 1), L("( { a : , 1 's' } ) =", 6, 0), L("[ a , = ] ...", 5, 1),
    L("a => ( ) { } , =", 5, 1), L("async a => ( ) function { }", 6, 0), L("var let a = ; , [ ]", 4, 1), L("if else ( a ) ; { }", 7, 0),
    L("for ( ) ; a in", 7, 0), L("try catch finally { } ( a )", 8, 0), L("switch ( a ) { } case :", 8, 0),
    L("a ( ) { } static get 's' [ ]", 6, 0, prefix="class b {"), L("a `h${ }m${ }e` `t`", 5, 1), L("'s' 'use strict' ; a }", 4, 0, prefix="function f ( ) {"),
    L("{ } as a , from 's' *", 7, 0, goal='Module', prefix='import'), L("{ } as a , from 's' *", 7, 0, goal='Module', prefix='export'), L("export default function a ( ) { } class", 7, 0, goal='Module'),
]
