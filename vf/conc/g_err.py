"""Malformed and ill-typed commands: each must stop the run with an error (P04); well-formed neighbours are accepted.

One entry per place where the parsers reject, so that no error is followed by a success report."""
from .core import Case
from .g_core import PRE

BASE = '''(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const b U)
(declare-const v V)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const A Bool)
(declare-const B Bool)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const L ((T Type)) Type)
(declare-const @vl Type)
(declare-const @vnil @vl)
(declare-parameterized-const @vc ((T Type :implicit)) (-> T @vl @vl) :right-assoc-nil @vnil)
(declare-const forall (-> @vl Bool Bool) :binder @vc)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule tr () :conclusion true)
(declare-rule dis ((F Bool)) :assumption F :conclusion true)
(declare-rule val ((x U) (y U)) :args (x y) :requires ((x y)) :conclusion true)
(program pr ((x U)) :signature (U) U (((pr a) b)))
(assume @A A)
'''
SAME = '(step @%d true :rule val :args (%s %s))'
OK, BAD = 'correct', 'error'
ENTRIES = [
    # terms
    ('(define z () ((f a)))', BAD, 'an application as head of a term'), ('(define z () ((g a) b))', BAD, 'an application as head of a term'), ('(define z () ((_ g a) b))\n' + SAME % (1, 'z', '(g a b)'), OK, 'a partial application as head'),
    ('(define z () ())', BAD, 'an empty application'), ('(define z () (f a)', BAD, 'a missing parenthesis'), ('(define z () f a))', BAD, 'an extra parenthesis'), ('(define z () (f a)))', BAD, 'an extra parenthesis'),
    ('(define z () )', BAD, 'a missing term'), ('(define z () (f a) b)', BAD, 'two terms'),
    ('(define z () (5 a))', BAD, 'a literal as head'), ('(define z () (f 1/0))', BAD, 'a zero denominator'), ('(define z () 1/0)', BAD, 'a zero denominator'), ('(define z () 0/1)', OK, 'a rational'), ('(define z () (f |a))', BAD, 'an unterminated symbol'),
    ('(define z () |a)', BAD, 'an unterminated symbol'), ('(define z () "abc)', BAD, 'an unterminated string'), ('(define z () (f :a))', BAD, 'a keyword as term'), ('(define z () :a)', BAD, 'a keyword as term'), ('(define z () (f define))', BAD, 'a reserved word as term'),
    ('(define z () (eo::define ((x a)) x))\n' + SAME % (1, 'z', 'a'), OK, 'let'), ('(define z () (eo::define ((x)) x))', BAD, 'a let without value'), ('(define z () (eo::define ((x a b)) x))', BAD, 'a let with two values'), ('(define z () (eo::define (x a) x))', BAD, 'a malformed let'),
    ('(define z () (eo::define ((x a))))', BAD, 'a let without body'), ('(define z () (eo::define ((x a)) x x))', BAD, 'a let with two bodies'), ('(define z () (eo::define ((x x)) x))', BAD, 'a let that uses itself'), ('(define z () (eo::define ((x a) (y x)) y))', BAD, 'let is parallel'),
    ('(define z () (eo::define ((x a)) y))', BAD, 'an undeclared name'), ('(define z () (let ((x a)) x))\n(define y () x)', BAD, 'a let variable after its scope'),
    ('(define z () (forall ((x U)) (= x a)))', OK, 'a binder'), ('(define z () (forall () A))', BAD, 'a binder that binds nothing'), ('(define z () (forall ((x)) A))', BAD, 'a binder without type'), ('(define z () (forall ((x U)) (= y a)))', BAD, 'an unbound variable'),
    ('(define z () (forall ((x U)) (= x a)))\n(define y () x)', BAD, 'a bound variable after its scope'), ('(define z () (forall ((x U))))\n(define y () (= z A) :type Bool)', BAD, 'a binder without body'), ('(define z () (forall ((x U)) (f x)))\n(define y () (= z A) :type Bool)', BAD, 'a binder over a term that is no formula'), ('(define z () (forall ((x a)) A))', BAD, 'a binder with a term as type'),
    ('(define z () (as a U))', OK, 'as'), ('(define z () (as a V))\n' + SAME % (1, 'z', 'a'), BAD, 'as with another type'), ('(define z () (eo::as a V))\n' + SAME % (1, 'z', 'a'), BAD, 'eo::as with another type'), ('(define z () zz)', BAD, 'an undeclared name'), ('(define z () (zz a))', BAD, 'an undeclared head'),
    # types of terms
    ('(define z () (f v) :type U)', BAD, 'an ill-typed application'), ('(define z () (f a b) :type U)', BAD, 'too many arguments'), ('(define z () (f a) :type U)', OK, 'the stated type'), ('(define z () (f a) :type V)', BAD, 'another stated type'), ('(define z () (g a) :type (-> U U))', OK, 'a partial application'),
    ('(define z () (a a) :type U)', BAD, 'application of a constant'), ('(define z ((x U)) (f x) :type (-> U U))', OK, 'the stated type of a macro') , ('(define z () (= a v) :type Bool)', BAD, 'an ill-typed equation'), ('(define z () (or A a) :type Bool)', BAD, 'an ill-typed disjunction'), ('(declare-const k (f a))', BAD, 'a term as type'),
    ('(declare-const k a)', BAD, 'a constant as type'), ('(declare-const k (-> U a))\n(define z () (k a) :type U)', BAD, 'a constant as return type'), ('(declare-const k (L U))', OK, 'a parameterized type'), ('(declare-const k L)', BAD, 'a type constructor as type'), ('(declare-const k (L a))', BAD, 'a term as type argument'), ('(declare-const k (L U U))', BAD, 'two type arguments'), ('(declare-const k (U U))', BAD, 'a type is no constructor'),
    ('(declare-const k (->))', BAD, 'an empty function type'), ('(declare-const k zz)', BAD, 'an undeclared type'), ('(declare-const k (-> U zz))', BAD, 'an undeclared type'), ('(declare-const k ())', BAD, 'an empty type'), ('(declare-const k)', BAD, 'no type'), ('(declare-const (f a) U)', BAD, 'a term as name'), ('(declare-const 5 U)', BAD, 'a literal as name'), ('(declare-const :k U)', BAD, 'a keyword as name'), ('(declare-const "k" U)', BAD, 'a string as name'), ('(declare-const k U U)', BAD, 'two types'),
    # attributes
    ('(declare-const k (-> U U U) :right-assoc-nil)', BAD, 'a nil attribute without nil'), ('(declare-const k (-> U U U) :right-assoc-nil zz)', BAD, 'an undeclared nil'), ('(declare-const k (-> U U U) :chainable)', BAD, 'chainable without operator'), ('(declare-const k (-> U U Bool) :chainable and)', OK, 'chainable'), ('(declare-const k (-> U U Bool) :pairwise)', BAD, 'pairwise without operator'), ('(declare-const k (-> U U Bool) :chainable zz)', BAD, 'chainable with an undeclared operator'),
    ('(declare-const k (-> @vl Bool Bool) :binder)', BAD, 'binder without constructor'), ('(declare-const k (-> U U U) :right-assoc) b', BAD, 'text after a command'), ('(declare-const k U :sorry)', BAD, 'sorry on a constant'), ('(declare-const k U :list)', BAD, 'list on a constant'), ('(declare-parameterized-const k ((x U :sorry)) U)', BAD, 'sorry on a parameter'),
    ('(declare-parameterized-const k ((x U :opaque)) U)', OK, 'an opaque parameter'), ('(declare-parameterized-const k ((x U) (y U :opaque)) U)', BAD, 'an opaque parameter which is no prefix'), ('(declare-parameterized-const k ((x U :opaque)) (-> U U U) :right-assoc)', BAD, 'opaque with an attribute'), ('(declare-parameterized-const k ((T Type)) (-> U T) :right-assoc-nil a)', OK, 'an attribute on a parametric symbol') ,
    ('(declare-parameterized-const k ((T Type :implicit)) (-> U T) :right-assoc)', BAD, 'an ambiguous function with an attribute'), ('(declare-parameterized-const k ((T Type :implicit) (x U :opaque)) T)', BAD, 'an ambiguous function with an opaque argument'), ('(declare-parameterized-const k ((x)) U)', BAD, 'a parameter without type'), ('(declare-parameterized-const k (x U) U)', BAD, 'a malformed parameter list'), ('(declare-parameterized-const k ((x zz)) U)', BAD, 'a parameter of undeclared type'),
    ('(declare-parameterized-const k ((T Type :implicit) (x T)) U)\n(define z () T)', BAD, 'a parameter after its scope'), ('(define z ((T Type :implicit) (x T)) T)', BAD, 'an implicit parameter in the body'), ('(define z ((x U)) x)\n(define y () x)', BAD, 'a parameter after its scope'), ('(define z ((x U)) zz)', BAD, 'an undeclared name in a body'), ('(define z (x) x)', BAD, 'a malformed parameter list'), ('(define z a)', BAD, 'no parameter list'), ('(define (z) () a)', BAD, 'a list as name'),
    # types of literals
    ('(declare-consts <numral> Int)', BAD, 'an unknown category of literals'), ('(declare-consts numeral Int)', BAD, 'an unknown category of literals'), ('(declare-consts <string> zz)', BAD, 'an undeclared type'), ('(declare-consts <string>)', BAD, 'no type'), ('(declare-consts <numeral> U)', BAD, 'a second type for numerals'), ('(declare-consts <string> U)\n(define z () (f "a") :type U)', OK, 'a type for strings'), ('(define z () (= "a" "b") :type Bool)', BAD, 'a literal without type'),
    # datatypes
    ('(declare-datatype D ((c1) (c2 (s1 U))))\n(define z () (= (c2 a) c1) :type Bool)', OK, 'a datatype'), ('(declare-datatype D ((c1) (c2 (s1 U))))\n(define z () (= (c2 v) c1) :type Bool)', BAD, 'an ill-typed constructor application'), ('(declare-datatype D ((c1 (s1 zz))))', BAD, 'an undeclared type in a datatype'), ('(declare-datatype D (c1))', BAD, 'a malformed constructor'), ('(declare-datatype D ((c1 (s1))))', BAD, 'a selector without type'), ('(declare-datatype D ((c1) (c1)))\n(declare-datatype D ((c2)))', OK, 'a datatype declared twice'),
    ('(declare-datatypes ((D 0) (D2 0)) (((c1)) ((c2 (s1 D)))))\n(define z () (= (s1 (c2 c1)) c1) :type Bool)', OK, 'two datatypes'), ('(declare-datatypes ((D 0) (D2 0)) (((c1))))', BAD, 'too few datatypes'), ('(declare-datatypes ((D 0)) (((c1)) ((c2))))', BAD, 'too many datatypes'), ('(declare-datatypes () ())', BAD, 'no datatypes'), ('(declare-datatypes ((D 1)) ((par (T) ((c1 (s1 T))))))\n(define z () (= (s1 (c1 a)) a) :type Bool)', OK, 'a parametric datatype'), ('(declare-datatypes ((D 1)) ((par () ((c1)))))', BAD, 'an empty parameter list'), ('(declare-datatypes ((D 2)) ((par (T) ((c1 (s1 T))))))', BAD, 'a wrong number of parameters'), ('(declare-datatypes ((D 1)) ((((c1)))))', BAD, 'missing parameters'), ('(declare-datatypes ((D)) (((c1))))', BAD, 'a datatype without arity'), ('(declare-datatype D ((c1)))\n(define z () (s1 c1))', BAD, 'an undeclared selector'), ('(declare-datatypes ((D 1)) ((par (T) ((c1 (s1 T))))))\n(define z () T)', BAD, 'a datatype parameter after its scope'),
    # rules
    ('(declare-rule r ((F Bool)) :premises (F) :conclusion)', BAD, 'a rule without conclusion'), ('(declare-rule r ((F Bool)) :premises (F))', BAD, 'a rule without conclusion'), ('(declare-rule r ((F Bool)) :premises F :conclusion F)', BAD, 'malformed premises'), ('(declare-rule r ((F Bool)) :conclusion F :premises (F))', BAD, 'premises after the conclusion'), ('(declare-rule r ((F Bool)) :args (F) :premises (F) :conclusion F)', BAD, 'premises after arguments'), ('(declare-rule r ((F Bool)) :premises (F) :requires (F) :conclusion F)', BAD, 'malformed requirements'), ('(declare-rule r ((F Bool)) :premises (F) :requires ((F)) :conclusion F)', BAD, 'a requirement with one side'), ('(declare-rule r ((F Bool)) :premises (F) :requires ((F F F)) :conclusion F)', BAD, 'a requirement with three sides'), ('(declare-rule r ((F Bool)) :premises (G) :conclusion F)', BAD, 'an undeclared premise'), ('(declare-rule r ((F Bool)) :premise-list F :conclusion F)', BAD, 'a premise list without operator'), ('(declare-rule r () :premises (A) :conclusion A)\n(step @1 A :rule r :premises (@A))', OK, 'a rule without parameters'), ('(declare-rule r :conclusion A)', BAD, 'a rule without parameter list'), ('(declare-rule r ((F Bool)) :premises (F) :conclusion F :foo)', OK, 'an unknown attribute'), ('(declare-rule r ((F Bool)) :premises (F) :conclusion F F)', BAD, 'two conclusions'), ('(declare-rule r ((F Bool)) :premises (F) :conclusion F)\n(define z () F)', BAD, 'a rule parameter after its scope'),
    ('(assume-push @b B)\n(declare-rule r ((F Bool)) :premises (F) :conclusion F)', BAD, 'a rule in a local scope'), ('(declare-rule r ((F Bool)) :premises (F) :conclusion-explicit F)\n(step @1 A :rule r :premises (@A))', OK, 'an explicit conclusion'), ('(define z () id)', BAD, 'a rule as a term'),
    # programs
    ('(program p ((x U)) :signature (U) U ())', BAD, 'a program without cases'), ('(program p ((x U)) :signature () U (((p) a)))', BAD, 'a program without arguments'), ('(program p ((x U)) (U) U (((p x) a)))', BAD, 'a program without :signature'), ('(program p ((x U)) :foo (U) U (((p x) a)))', BAD, 'another attribute for :signature'), ('(program p ((x U)) :signature (U) U (((f x) a)))', BAD, 'a case of another symbol'), ('(program p ((x U)) :signature (U) U ((x a)))', BAD, 'a case that is no application'), ('(program p ((x U)) :signature (U U) U (((p x) a)))', BAD, 'a case with too few arguments'), ('(program p ((x U)) :signature (U) U (((p x a) a)))', BAD, 'a case with too many arguments'), ('(program p ((x U)) :signature (U) U (((p x))))', BAD, 'a case without result'), ('(program p ((x U)) :signature (U) U (((p x) a a)))', BAD, 'a case with two results'), ('(program p ((x U) (y U)) :signature (U) U (((p x) y)))', BAD, 'an unbound parameter in a result'), ('(program p ((x U)) :signature (U) U (((p y) y)))', BAD, 'an undeclared name in a pattern'), ('(program p ((x U)) :signature (U) U (((p (pr x)) x)))', BAD, 'a program in a pattern'), ('(program p ((x Int)) :signature (Int) Int (((p (eo::add x 1)) x)))', BAD, 'an operator in a pattern'), ('(program p ((x U)) :signature (U) U (((p x) a)))\n(define z () x)', BAD, 'a program parameter after its scope'),
    ('(program p ((x U)) :signature (U) U)\n(program p ((x U)) :signature (U) U (((p x) a)))\n' + SAME % (1, '(p b)', 'a'), OK, 'a forward declaration'), ('(program p ((x U)) :signature (U) U)\n(program p ((x V)) :signature (V) U (((p x) a)))', BAD, 'a definition of another type than declared'), ('(program p ((x U)) :signature (U) U (((p x) a)))\n(program p ((x U)) :signature (U) U (((p x) b)))', BAD, 'a program defined twice'), ('(program f ((x U)) :signature (U) U (((f x) a)))', BAD, 'a program with the name of a constant'), ('(program p ((x U)) :signature (U) U (((p a) b)))\n(define z () (= (p v) a) :type Bool)', BAD, 'an ill-typed program application'), ('(program p ((x U)) :signature (zz) U (((p x) a)))', BAD, 'an undeclared argument type'), ('(program p ((x U)) :signature (U) zz (((p x) a)))', BAD, 'an undeclared return type'), 
    # steps and assumptions
    ('(assume @1)', BAD, 'an assumption without formula'), ('(assume A)', BAD, 'an assumption without name'), ('(assume @1 a)', BAD, 'an assumption that is no formula'), ('(assume @1 A B)', BAD, 'an assumption with two formulas'), ('(step @1 A)', BAD, 'a step without rule'), ('(step @1 A :rule)', BAD, 'a step without rule'), ('(step @1 A :premises (@A) :rule id)', BAD, 'premises before the rule'), ('(step @1 A :rule id :premises @A)', BAD, 'malformed premises'), ('(step @1 A B :rule id :premises (@A))', BAD, 'two conclusions'), ('(step @1 A :rule id :premises (@A) :premises (@A))', BAD, 'premises twice'), ('(step :rule id :premises (@A))', BAD, 'a step without name'), ('(step @1 A :rule id :premises (@A)', BAD, 'a missing parenthesis'), ('(step @1 A :rule "id" :premises (@A))', BAD, 'a string as rule'), ('(assume-push @1 a)\n(step-pop @2 A :rule id :premises (@A))', BAD, 'a local assumption that is no formula'),
    # scopes
    ('(push)\n(declare-const k U)\n(pop)\n(define z () k)', BAD, 'a declaration of a popped scope'), ('(push 2)\n(pop 1)\n(pop 1)', OK, 'push and pop'), ('(pop)', BAD, 'a pop without push'), ('(push 1)\n(pop 2)', BAD, 'two pops for a push'), ('(push 02)', BAD, 'a numeral with a leading zero'), ('(push a)', BAD, 'a symbol as number'), ('(push 0)', OK, 'no scope pushed'),
    # other commands
    ('(define-type T1 () U)', BAD, 'no such command'), ('(foo)', BAD, 'no such command'), ('foo', BAD, 'no command'), ('()', BAD, 'an empty command'), (')', BAD, 'a parenthesis'), ('"s"', BAD, 'a string'), ('(declare-const k U))', BAD, 'an extra parenthesis'), ('(declare-const k U', BAD, 'a missing parenthesis'), ('(include a)', BAD, 'include without a string'), ('(include "nosuch.eo")', BAD, 'a missing file'), ('(include)', BAD, 'include without a file'), ('(reference "nosuch.smt2")', BAD, 'a missing reference'), ('(reference a)', BAD, 'reference without a string'), ('(echo a b)', BAD, 'echo of two symbols') , ('(echo "x")', OK, 'echo'), ('(exit)', OK, 'exit'), ('(reset)\n(define z () a)', BAD, 'a name of before the reset'), ('(set-option :foo bar)', OK, 'an unknown option'), ('(set-option foo bar)', BAD, 'an option without colon'),
    ('(set-logic)', BAD, 'no logic'), ('(check-sat-assuming)', BAD, 'no argument'),
    ('(declare-datatypes () ())', BAD, 'no datatype'), ('(declare-datatypes ((D 1)) ((par (X) ((c1) (c2 (s1 X))))))\n(define z () (= (s1 (c2 a)) a) :type Bool)', OK, 'a parametric datatype'), ('(declare-datatypes ((D 1)) ((par (X) ((c1) (c2 (s1 X))))))\n(define z () X)', BAD, 'a datatype parameter after its scope'),
    ('(declare-datatypes ((D 01)) ((par (X) ((c1 (s1 X))))))', BAD, 'a numeral with a leading zero'), ('(declare-datatypes ((D 1)) ((par (X Y) ((c1 (s1 X))))))', BAD, 'too many parameters'), ('(declare-datatypes ((D 1)) ((par () ((c1)))))', BAD, 'no parameters'), ('(declare-datatypes ((D 1)) (((c1))))', BAD, 'too few parameters'), ('(declare-datatypes ((D 0) (D2 0)) ())', BAD, 'no bodies'),
    ('(declare-datatypes ((D 0) (D2 0) (D3 0)) (((c1)) ((c2))))', BAD, 'a body is missing'), ('(declare-datatypes ((D 0) (D2 1)) (((c1)) (par (X) ((c2 (s2 X))))) )\n(define z () (= (c2 c1) (c2 c1)) :type Bool)', OK, 'a plain and a parametric datatype'),
    ('(assume-push @p A)\n(include "i.eo")', BAD, 'an include in a scope'), ('(assume-push @p A)\n(reference "r.smt2")', BAD, 'a reference in a scope'), ('(assume-push @p A)\n(step-pop @q :rule dis)\n(include "i.eo")\n' + SAME % (1, 'ii', 'ii'), OK, 'an include after a scope'), ('(include "i.eo")\n(include "i.eo")', OK, 'included twice'), ('(include "i.eo" a)', BAD, 'text after a file name'),
    ('(define z () ((f a) b))', BAD, 'an application as head of a term'), ('(define z () ((f) a))', BAD, 'a list as head of a term'), ('(define z () ((|_| g a) b))', OK, 'a quoted name'),
    ('(program q ((T Type) (x T)) :signature ((eo::quote T) T) T (((q T x) x)))', OK, 'a quoted type'), ('(program q ((T Type)) :signature ((eo::quote U)) U (((q T) a)))', BAD, 'a quoted constant'), ('(declare-const k (eo::quote a))', BAD, 'a quote as type'), ('(declare-const k (-> (eo::quote a) U))', BAD, 'a quoted constant'), ('(declare-datatype D ((c1 (s1 (eo::add 1 a)))))', BAD, 'an unevaluated type'), ('(declare-const k (eo::ite true U V))\n(define z () (f k) :type U)', OK, 'an evaluated type'),
    ('(declare-const k (eo::ite a U V))', BAD, 'an unevaluated type'), ('(declare-const k (-> U (eo::ite a U V)))', BAD, 'an unevaluated type'), ('(declare-const k (-> (eo::ite a U V) U))', BAD, 'an unevaluated type'), ('(declare-parameterized-const k ((x Bool)) (-> (eo::ite x U V) U))', OK, 'a type to be evaluated'), 
]
# what an SMT-LIB file may contain: its text, what is written afterwards, and whether that is right
RPRE = '''(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const v V)
(declare-const f (-> U U))
(declare-parameterized-const L ((T Type)) Type)
(declare-const @vl Type)
(declare-const @vnil @vl)
(declare-parameterized-const @vc ((T Type :implicit)) (-> T @vl @vl) :right-assoc-nil @vnil)
(declare-parameterized-const lambda ((R Type :implicit)) (-> @vl R (-> U R)) :binder @vc)
(declare-rule same ((T Type) (x T)) :args (x x) :conclusion true)
'''
REFS = [
    ('(define-sort S () U)\n(declare-const k S)\n(assert (= k a))', '(assume @1 (= k a))', OK, 'define-sort'), ('(define-sort S (X) (L X))\n(declare-const k (S U))\n(declare-const l (L U))\n(assert (= k l))', '(assume @1 (= k l))', OK, 'define-sort with a parameter'),
    ('(define-sort S (X) (L X))\n(declare-const k X)', '', BAD, 'a sort parameter after its scope'), ('(define-sort S () a)', '', BAD, 'a term as sort'), ('(define-sort S (X) (L zz))', '', BAD, 'an undeclared sort'), ('(define-sort U2 (X Y) (L Y))\n(declare-const k (U2 U V))\n(declare-const l (L V))\n(assert (= k l))', '(assume @1 (= k l))', OK, 'define-sort with two parameters'), ('(define-sort U2 (X Y) (L Y))\n(declare-const k (U2 U V))\n(declare-const l (L U))\n(assert (= k l))', '', BAD, 'another sort'),
    ('(declare-sort S 1)\n(declare-const k (S U))', '', OK, 'declare-sort'), ('(declare-sort S 1)\n(declare-const k S)', '', BAD, 'a sort constructor as sort'), ('(declare-sort S 0)\n(declare-const k (S U))', '', BAD, 'a sort as constructor'), ('(declare-sort S 00)', '', BAD, 'a numeral with a leading zero'), ('(declare-sort S 01)', '', BAD, 'a numeral with a leading zero'), ('(declare-sort S 10)\n(declare-const k (S U U U U U U U U U U))', '', OK, 'ten arguments'), ('(declare-sort S 10)\n(declare-const k (S U))', '', BAD, 'one argument of ten'), ('(declare-sort S a)', '', BAD, 'a symbol as arity'),
    ('(declare-fun k (U V) U)\n(assert (= (k a v) a))', '(assume @1 (= (k a v) a))', OK, 'declare-fun'), ('(declare-fun k (U V) U)\n(assert (= (k v a) a))', '', BAD, 'an ill-typed application'), ('(declare-fun k (U zz) U)', '', BAD, 'an undeclared sort'), ('(declare-fun k () U)\n(assert (= k a))', '(assume @1 (= k a))', OK, 'a constant'),
    ('(define-const k U a)\n(assert (= k (f a)))', '(assume @1 (= a (f a)))', OK, 'define-const'), ('(define-const k V a)', '', BAD, 'define-const with another sort'), ('(define-const k zz a)', '', BAD, 'define-const with an undeclared sort'),
    ('(define-fun k ((x U)) V (f x))', '', BAD, 'define-fun with another sort'), ('(define-fun k () V a)', '', BAD, 'define-fun with another sort'), ('(define-fun k () U a)\n(assert (= (f k) a))', '(assume @1 (= k a))\n(assume @2 (= (f k) a))', OK, 'define-fun'), ('(define-fun k () U a)\n(assert (= (f k) a))', '(assume @1 (= (f a) a))', BAD, 'the definition expanded'),
    ('(define-fun k ((x U)) U (f x))', '(assume @1 (= k f))', BAD, 'another formula'), ('(define-fun k ((x U)) U x)', '(assume @1 (= k a))', BAD, 'another formula'), ('(define-fun k ((x U)) U (f x))', '(assume @1 (= k (lambda ((x U)) x)))', BAD, 'another body'), ('(define-fun k ((x U)) U (f x))', '(assume @1 (= k (lambda ((y U)) (f y))))', BAD, 'another variable'),
    ('(define-fun k ((x U)) U (f x))\n(assert (= (k a) a))', '(assume @1 (= (k a) a))', OK, 'the function applied'), ('(define-fun k ((x U)) U (f x))\n(assert (= (k v) a))', '', BAD, 'the function applied to another sort'), ('(define-fun k ((x U)) U (f x))\n(assert (= x a))', '', BAD, 'a parameter after its scope'), ('(define-fun k ((x U)) U (f k))', '', BAD, 'a recursive definition'),
    ('(assert a)', '', BAD, 'a term asserted'), ('(assert)', '', BAD, 'nothing asserted'), ('(assert (= a a) (= a a))', '', BAD, 'two formulas'), ('(assert (= a v))', '', BAD, 'an ill-typed assertion'), ('(assert (= a zz))', '', BAD, 'an undeclared name'), ('(assert (= a a)', '', BAD, 'a missing parenthesis'), ('(assert (= a a)))', '', BAD, 'an extra parenthesis'),
    ('(set-logic ALL)\n(set-info :status unsat)\n(set-option :foo bar)\n(assert (= a a))\n(check-sat)', '(assume @1 (= a a))', OK, 'ignored commands'), ('(assert (= a (f a)))\n(check-sat-assuming ((= a a)))', '(assume @1 (= a (f a)))', OK, 'check-sat-assuming'), ('(check-sat-assuming)', '', BAD, 'no list'), ('(set-logic)', '', BAD, 'no logic'), ('(exit)\n(assert zz)', '', OK, 'text after exit'), ('(exit)\n(assert (= a a))', '(assume @1 (= a a))', BAD, 'an assertion after exit'),
    ('(step @1 (= a a) :rule same)', '', BAD, 'a proof command'), ('(assume @1 (= a a))', '', BAD, 'a proof command'), ('(declare-rule r () :conclusion true)', '', BAD, 'a rule'), ('(program p ((x U)) :signature (U) U (((p x) x)))', '', BAD, 'a program'), ('(define k () a)', '', BAD, 'a macro'), ('(include "i.eo")', '', BAD, 'an include'),
    ('(assert (let ((x a) (y (f a))) (= x y)))', '(assume @1 (= a (f a)))', OK, 'let'), ('(assert (let ((x a) (y x)) (= x y)))', '', BAD, 'let is parallel'), ('(assert (= (let ((x a)) x) x))', '', BAD, 'a let variable after its scope'), ('(push 1)\n(declare-const k U)\n(pop 1)\n(assert (= k k))', '', BAD, 'a popped declaration'), ('(push 1)\n(declare-const k U)\n(assert (= k k))', '(assume @1 (= k k))', OK, 'a declaration in a scope'),
    ('(assert (! (= a a) :named n))', '(assume @1 (= a a))', OK, 'a named assertion'),
]


def cases_P04(r, tier):
    for t, e, w in ENTRIES:
        files = {'main.eo': BASE + t + '\n', 'i.eo': '(declare-const ii U)\n', 'r.smt2': '(assert A)\n'}
        yield Case(e, w + ': ' + t.replace('\n', ' '), files=files)
    for t, q, e, w in REFS:
        yield Case(e, w + ': ' + t.replace('\n', ' ') + ' / ' + q, text=RPRE + '(reference "in.smt2")\n' + q + '\n', files={'in.smt2': t + '\n', 'i.eo': ''})
        if e == BAD and not q:
            # an error of a file named by an option is one as well
            yield Case(e, w + ' (option): ' + t.replace('\n', ' '), text='', args=['--include=pre.eo', '--reference=in.smt2'], files={'in.smt2': t + '\n', 'pre.eo': RPRE, 'i.eo': ''})


def cases_P03(r, tier):
    for t, q, e, w in REFS:
        if q:
            yield Case(e, w + ': ' + t.replace('\n', ' ') + ' / ' + q, text=RPRE + '(reference "in.smt2")\n' + q + '\n', files={'in.smt2': t + '\n'})


def cases(prop, r, tier):
    yield from globals()['cases_' + prop](r, tier)
