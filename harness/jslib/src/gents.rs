//! Programs from templates: `$S` a statement, `$E` an expression, `$M` a class member, `$H` a place
//! for a comment, `$N` a fresh number. `fuel` bounds the number of templates besides the calls.
use symx_rt::choose;

pub struct Templates { pub items: &'static [&'static str], pub exprs: &'static [&'static str], pub members: &'static [&'static str], pub comments: &'static [&'static str] }

/// TypeScript
pub static TS: Templates = Templates {
    items: &[
        "$E;",
        "declare function g$N(a: number): void;",
        "declare const v$N: number, w$N = 1;",
        "declare class K$N { m(): void; p: number; static q: string; constructor(a: number); get x(): number; set x(v: number); #r; }",
        "declare namespace N$N { function g(): void; const v = 1; let w: string; class K { m(): void; static p = 1; } enum E { A, B = 1 } namespace P { var x; } }",
        "declare module 'm$N' { export const x = 1; export default function f(): void; export class K { m(): void } }",
        "declare global { var x$N: number; function g$N(): void; interface I { p: string } }",
        "declare enum E$N { A = 1, B }",
        "declare abstract class K$N { abstract m(): void; protected constructor(); }",
        "namespace N$N { $S }",
        "namespace A$N.B { export function g() { $S } export const v = $E; }",
        "export namespace N$N { export class K { $M } }",
        "module N$N { export const v = $E; }",
        "enum E$N { A = $E, B = 'b', C = A || 2 }",
        "const enum E$N { A = 1 << 2, B = A | 2 }",
        "export const enum E$N { A, B = 'x' }",
        "$H abstract class K$N { $H abstract m(): void; abstract p: number; abstract get q(): string; $M }",
        "class K$N { m(): void; m(a?: any): void; $H m(a?: any) { $S } }",
        "class K$N { constructor(); constructor(a?: any); $H constructor(a?: any) { $S } }",
        "class K$N { constructor(private a = $E, public readonly b?: number) { $S } }",
        "class K$N<T extends object = {}> extends f() implements I, J<T> { $M }",
        "class K$N { $M }",
        "function g$N(): void; function g$N(a?: any): void { $S }",
        "export function g$N(): void; export function g$N(a?: any): void { $S }",
        "export default function (): void; export default function (a?: any): void { $S }",
        "function g$N<T>(this: any, a: T, b: number = $E, ...c: T[]): asserts a { $S }",
        "async function g$N(): Promise<void> { await $E; }",
        "type T$N = { a: 1 | 2; m(): void; new (x: number): any; [k: string]: any };",
        "interface I$N<T> extends J { m(): void; p?: number; get x(): number; (a: T): void; readonly [k: string]: any }",
        "type U$N<T> = T extends (infer R)[] ? R : `a${string}`;",
        "import type { A$N } from 'm'; export type { A$N };",
        "import { type A$N, B$N } from 'm';",
        "import x$N = require('m');",
        "import A$N = N.B.C;",
        "export import A$N = N.B;",
        "export = $E;",
        "export as namespace N$N;",
        "export abstract class K$N { abstract m(): void; $M }",
        "export default abstract class K$N { abstract m(): void; $M }",
        "export default interface I$N { p: string }",
        "export type T$N = string; export interface I$N { m(): void }",
        "export declare const v$N: number; export declare function g$N(): void; export declare class K$N { p: string }",
        "export enum E$N { A = $E }",
        "@dec($E) class K$N { $M }",
        "@dec export class K$N { $M }",
        "export @dec class K$N { $M }",
        "export default @dec class { $M }",
        "$H let v$N: number = $E;",
        "const v$N = $E as const;",
        "var v$N!: number;",
        "let { a$N = $E, ...r$N }: any = f();",
        "try { $S } catch (e: unknown) { $S }",
        "for (const v of $E as any[]) { $S }",
        "if ($E) { $S } else { $S }",
        "switch ($E as any) { case $E: $S; default: $S }",
        "l$N: for (let i: number = 0; $E; ) { $S; break l$N; }",
        "return_type$N: { type T = 1; $S }",
        "if (f()) type = 1; else $E;",
        "abstract = 1; $E;",
        "using v$N = $E;",
    ],
    exprs: &[
        "f()", "($E as any)", "$E!", "(<any>$E)", "($E satisfies T)", "f<T>($E)", "new H<T>($E)", "f?.<T>($E)!.p", "t<T>`a${$E}`",
        "((a: number = $E, b?: string): void => { $S })", "((a): a is string => $E)", "(async <T,>(x: T): Promise<T> => $E)", "(function g(this: any, a?: any): void { $S })",
        "({ m<T>(a: T): void { $S }, get p(): number { $S; return 1 }, set p(v: number) { $S } })", "(class<T> { $M })", "(class K extends H<T> { $M })",
        "($E ? $E as any : <T>$E)", "($E! || $E)", "($E && ($E as any) && $E!)", "(x.y! = $E)", "((x as any) = $E)", "(x as any).p ??= $E", "f<typeof x>", "import('m')", "(abstract class { abstract m(): void; $M })",
        "([a = $E] = $E as any)", "(({ a = $E }: any) => a)", "(x! ||= $E)", "(typeof $E === 'string')", "(delete (x as any).p)",
    ],
    members: &[
        "$H m(): void { $S }", "$H p: number = $E;", "declare p: number;", "p!: number;", "p?: number;", "$H readonly q = $E;", "static override r: any = $E;", "m?(): void;", "private async *m<T>(): any { $S }",
        "[k: string]: any;", "static [k: string]: any;", "$H get x(): number { $S; return 1 }", "set x(v: number) { $S }", "$H static { $S }", "$H #p?: number = $E;", "#m(): void { $S }", "accessor a: number = $E;", "static accessor #b = $E;",
        "@dec() m(@dec($E) a?: any) { $S }", "@dec($E) p = $E;", "@dec get x() { $S; return 1 }", "[$E]?: number;", "[$E](): void { $S }", "'m'(): void; 'm'(a?: any) { $S }", "constructor(public a: number = $E) { $S }", "constructor(@dec a: any, private readonly b = 1) { super(); $S }", "protected constructor();", "abstract m(): void;", "abstract p: number;", "get x(): number;", "static m(): void; static m(a?: any): void { $S }", ";",
    ],
    comments: &["/* istanbul ignore next */ ", "// istanbul ignore if\n", "/* istanbul ignore else */ ", "/**/", "/* istanbul ignore file */ ", "/* istanbul ignore next*/ // istanbul ignore next\n", "/*ääääää*/ "],
};

/// JavaScript the other grammar leaves out
pub static JS: Templates = Templates {
    items: JS_ITEMS,
    exprs: &[
        "f()", "import($E)", "import.meta.p", "new.target", "(x?.[$E]?.($E))", "delete f()?.p", "((-1) ** $E)", "(#x in $E)", "(async ( ) => { await $E })", "(async x => $E)", "(x => ({ a: $E }))", "(() => { })", "(() => [ ])", "(() => x = $E)", "(() => () => $E)",
        "({ __proto__: $E, ...f(), [$E]: 1, 's': $E, 1: $E, x })", "({ async *m() { $S }, async a() { await $E }, get [$E]() { $S }, set p({ q = $E }) { $S }, get: 1, set() { $S }, 2() { $S } })",
        "({ a = $E, b: x = $E, ...y } = f())", "([x = $E, ...[y]] = $E)", "(x.p = $E)", "(x[$E] += $E)", "(x &&= $E)", "(x ??= $E)", "x++", "--x[$E]", "(void $E)", "(typeof $E)", "(!$E && !f())", "($E, $E)", "($E ?? ($E || $E))", "(($E && $E) ?? $E)", "(x ? $E : f() ? $E : $E)", "($E || f() || $E && f() || $E)", "(a && (b || $E) && (c, $E))",
        "t`${$E}a${`${$E}`}`", "f``(...$E)", "new (f())($E)", "new H", "new new H($E)()", "(class { $M })", "(class K extends $E { $M })", "(function () { $S })", "(async function () { $S })", "(async function* g() { $S })", "(function* () { $S; yield $E })", "(async () => { $S })", "(function* g() { yield $E })", "(async function* () { yield* $E })", "(function (a = $E, { b = a } = {}) { $S })", "((a = $E, [b] = [$E], { c } = { c: $E }, ...d) => d)", "/re/", "10n", "null", "this", "'s'", "`t`", "[ , $E, , ]", "[...$E]", "($E in $E)", "($E instanceof $E)", "($E, x => { $S })", "super.m($E)", "(() => super.m())", "arguments[$E]", "(function () { return arguments.length || $E })", "(yield $E)", "(await $E)", "<A b={$E} />", "{}.p",
    ],
    members: JS_MEMBERS,
    comments: &[],
};

const JS_ITEMS: &[&str] = &[
        "$E;",
        "async function g$N() { for await (const v of $E) { $S } }",
        "async function* g$N() { yield* $E; yield; await $E; }",
        "function* g$N() { const v = yield $E; return yield; }",
        "export default class extends $E { $M }",
        "export default async function* g$N() { $S }",
        "export default ( ) => { $S }",
        "export default async ( ) => $E",
        "export default { a: $E }",
        "export default [ $E, , ...f() ]",
        "class K$N extends $E { $M }",
        "class K$N { $M }",
        "export * as ns$N from 'm'; export { default } from 'm'; export { x$N as 'y' } from 'm';",
        "import d$N, * as n$N from 'm'; import e$N, { a as b$N, default as c$N } from 'm'; import 'm';",
        "import j$N from 'm' with { type: 'json' };",
        "if ($E) function g$N() { $S }",
        "l$N: function g$N() { $S }",
        "l$N: m$N: for (;;) { $S; continue m$N; }",
        "for (const [a = $E] of $E) $E;",
        "for (const { a = $E } in $E) { $S }",
        "for (var v$N of $E) ;",
        "for (x of $E) { $S }",
        "for (x.p in $E) $S",
        "for ([x = $E] of f()) $S",
        "for (let i = $E, j = $E; ; ) { break; }",
        "for (;;) { $S; break; }",
        "for (x = 0, y = $E; ; x++) break;",
        "for (let of of f()) ;",
        "for (let async of f()) $S",
        "while ($E) ;",
        "do $S while ($E)",
        "do ; while ($E); $S",
        "if ($E) ; else ;",
        "if ($E) $S else if ($E) $S else $S",
        "if ($E) { } else { }",
        "switch ($E) { }",
        "switch ($E) { default: }",
        "switch ($E) { case 1: let v$N = $E; break; case 2: { $S } default: function q$N() { $S } }",
        "try { $S } catch { $S } finally { $S }",
        "try { $S } catch ({ a = $E }) { }",
        "try { } finally { }",
        "throw $E",
        "debugger",
        "var v$N",
        "let v$N, w$N = $E, [ y$N = $E ] = f();",
        "const { a: { b$N = $E } = {}, [$E]: c$N = 1, ...d$N } = f();",
        "var [ , a$N = $E, ...b$N ] = $E",
        "export let v$N = $E, w$N;",
        "export const { a: e$N = $E } = f();",
        "export var g$N = function () { $S }",
        "function g$N({ a = $E, b: [ c = $E ] = [] } = {}, ...d) { $S }",
        "function g$N() { return }",
        "function g$N() { return $E }",
        "function g$N() { 'use strict' }",
        "function g$N() { }",
        "function g$N() { return new.target }",
        "{ }",
        ";",
        ";;$E",
        "{ let v$N = $E; const w$N = $E; class Q$N { } function q$N() { } }",
        "'use strict'",
        "'a' + $E",
        "('use strict')",
        "with ($E) $S",
        "with ($E) { $S }",
        "using v$N = $E",
        "async function g$N() { await using v = $E; }",
        "import.meta.p = $E",
        "yield",
        "await $E",
        "async\n$E",
        "let\nv$N\n=\n$E",
        "x\n++\ny",
        "$E\n/re/g",
        "var a$N = /[/]\\/(?<n>a)/giu, b$N = 1n, c$N = .5e1_0, d$N = 0x1F",
        "$E // istanbul ignore next",
        "/* istanbul ignore next */",
        "<!-- html comment\n$E",
        "@dec($E) class K$N { $M }",
        "<A b={$E} {...f()}>text {$E} {/* c */} <></> <B.c d='e' /></A>",
        "var v$N = <>{$E && <A />}</>",
        "function g$N() { if (x) return <A>{...$E}</A>; else return ($E); }",
    ];
const JS_MEMBERS: &[&str] = &[
        "m() { $S }", "p = $E", "p", "'p' = $E;", "[$E] = $E;", "1 = $E;", "static p = $E;", "#p = $E;", "static #p = () => { $S };", "p = () => $E;", "p = function () { $S };", "get p() { $S }", "set p(v = $E) { $S }", "set p({ v = $E }) { $S }", "static async *[$E]() { $S }", "async *#m() { yield $E }", "get #p() { $S }", "static set #p(v) { $S }", "constructor() { super($E); $S }", "constructor(a = $E, { b = 1 } = {}) { super(); $S }", "'constructor'() { $S }", "constructor() { return $E }", "constructor() { super(); (() => this.p = $E)() }", "static { $S }", "static { }", "static { try { $S } finally { } }", "get() { $S }", "static() { $S }", "async() { $S }", "static static() { $S }", "get = $E;", "static = $E;", "m() { return super.m($E) }", "static m() { $S }", "0() { $S }", "'a b'() { $S }", "[$E]() { $S }", "@dec($E) m() { $S }", ";", "m() { } n() { $S } #x = 1; y = $E", "accessor a = $E;",
    ];
/// the same with few expressions
pub static JS_SHORT: Templates = Templates {
    items: JS_ITEMS,
    exprs: &["f()", "(x ? $E : f())", "($E || f() && g())", "(() => $E)", "(function () { $S })", "(async x => { await $E })", "(class { $M })", "({ m() { $S } })", "((a = $E) => a)", "(x ??= $E)"],
    members: JS_MEMBERS,
    comments: &[],
};

pub struct T { pub src: String, pub fuel: u32, pub id: u32, pub t: &'static Templates, pub hints: u32, pub strs: bool }
impl T {
    fn num(&mut self) { let n = self.id; if n >= 10 { self.src.push((b'0' + (n / 10) as u8) as char); } self.src.push((b'0' + (n % 10) as u8) as char); }
    fn pick(&mut self, l: &'static [&'static str], what: &str) -> &'static str { let k = choose(l.len() as u64, what) as usize; l[k] }
    fn call(&mut self) { self.id += 1; self.src.push('f'); self.num(); self.src.push_str("()"); }
    pub fn item(&mut self) {
        if self.fuel == 0 {
            if self.strs { match choose(3, "string") { 0 => {} 1 => { self.src.push_str("'use x'; "); } _ => { self.src.push_str("'use x'"); if !self.src.ends_with("; ") { self.src.push(';'); } return; } } }
            self.call(); self.src.push(';'); return;
        }
        let t = self.pick(self.t.items, "item");
        if !t.starts_with("$E;") { self.fuel -= 1; }
        self.put(t);
    }
    fn put(&mut self, t: &'static str) {
        self.id += 1;
        let n = self.id;
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'$' && i + 1 < b.len() {
                match b[i + 1] {
                    b'S' => self.item(),
                    b'E' => { if self.fuel == 0 { self.call(); } else { let t = self.pick(self.t.exprs, "expr"); if t.len() > 3 { self.fuel -= 1; self.put(t); } else { self.call(); } } }
                    b'M' => { if self.fuel == 0 { self.src.push_str("m() { "); self.call(); self.src.push_str("; }"); } else { self.fuel -= 1; let t = self.pick(self.t.members, "member"); self.put(t); } }
                    b'H' => { if self.hints > 0 && !self.t.comments.is_empty() { let k = choose(self.t.comments.len() as u64 + 1, "comment") as usize; if k > 0 { self.hints -= 1; self.src.push_str(self.t.comments[k - 1]); } } }
                    b'N' => { if n >= 10 { self.src.push((b'0' + (n / 10) as u8) as char); } self.src.push((b'0' + (n % 10) as u8) as char); }
                    _ => { self.src.push('$'); i += 1; continue; }
                }
                i += 2;
            } else { let mut e = i + 1; while e < b.len() && b[e] != b'$' { e += 1; } self.src.push_str(&t[i..e]); i = e; }
        }
    }
}
pub fn program(t: &'static Templates, fuel: u32, hints: u32, strs: bool) -> String { program_at(t, fuel, hints, strs, false) }
pub fn program_at(t: &'static Templates, fuel: u32, hints: u32, strs: bool, place: bool) -> String {
    let mut g = T { src: String::new(), fuel, id: 0, t, hints, strs };
    if place && choose(2, "place") == 1 { g.src.push_str("f0();\n"); }
    g.item();
    g.src.push('\n');
    g.src
}
