CHK = '''(declare-rule chk ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
'''
U = '''(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const d U)
'''
LST = U + '''(declare-const U.nil U)
(declare-const f (-> U U U) :right-assoc-nil U.nil)
(declare-const l (-> U U U) :left-assoc-nil U.nil)
'''


def eq(*ps):
    return CHK + ''.join('(step s%d true :rule chk :args (%s %s))\n' % (i, x, y) for i, (x, y) in enumerate(ps))


SEEDS = [
    dict(id='shared-bv-table', prop='B01',
         edits=[('src/state.cpp', '''      size_t i = k==Kind::HEXADECIMAL ? 0 : 1;
      std::unordered_map<BitVector, Expr, BitVectorHashFunction>& m = d_litBvMap[i];
      std::unordered_map<BitVector, Expr, BitVectorHashFunction>::iterator it = m.find(l.d_bv);''',
                 '''      size_t i = l.d_bv.getSize() % 4 == 0 ? 0 : 1;
      std::unordered_map<BitVector, Expr, BitVectorHashFunction>& m = d_litBvMap[i];
      std::unordered_map<BitVector, Expr, BitVectorHashFunction>::iterator it = m.find(l.d_bv);''')],
         files={'t.eo': '''(declare-const H Type)
(declare-const B Type)
(declare-consts <hexadecimal> H)
(declare-consts <binary> B)
''' + eq(('(eo::eq #xa #b1010)', 'false'))},
         demo=['correct t.eo --no-normalize-hex'],
         needs='--no-normalize-hex and a hexadecimal and a binary literal of the same value and a width divisible by four',
         breaks='literals of different categories become one term'),
    dict(id='sorry-pop', prop='P04',
         edits=[('src/cmd_parser.cpp', '''      if (isPop)
      {
        d_state.popAssumptionScope();
      }
''', '''      if (isPop)
      {
        d_state.popAssumptionScope();
        rule = d_state.getProofRule(name);
      }
''')],
         files={'t.eo': '''(declare-const F Bool)
(declare-const G Bool)
(declare-const => (-> Bool Bool Bool))
(declare-rule scope ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (=> x y))
(declare-rule ascope ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (=> x y) :sorry)
(assume-push p F)
(step-pop q :rule ascope :premises (p))
'''},
         demo=['incomplete t.eo'],
         needs='a rule with :assumption marked :sorry, used by step-pop, in a proof without other trusted steps',
         breaks='the verdict is correct although a trusted rule was used'),
    dict(id='overload-scope', prop='S01',
         edits=[('src/state.cpp', '''    // add to declaration
    if (!d_declsSizeCtx.empty())
    {''', '''    // add to declaration
    if (!d_declsSizeCtx.empty() && ov.size() == 2)
    {''')],
         files={'t.eo': U + '''(declare-rule same ((T Type) (x T) (y T)) :args (x y) :requires ((x y)) :conclusion true)
(push)
(define a () b)
(push)
(define a () c)
(step s1 true :rule same :args (a c))
(pop)
(step s2 true :rule same :args (a b))
(pop)
(declare-const e U)
(step s3 true :rule same :args ((eo::typeof a) U))
'''},
         demo=['correct t.eo'],
         needs='a name shadowed twice in nested scopes which are then left',
         breaks='leaving the inner scope removes the name instead of restoring its outer meaning'),
    dict(id='left-tail', prop='A05',
         edits=[('src/type_checker.cpp', """    e = isLeft ? (*(*e)[0])[1] : (*e)[1];
  }
  return e;""", """    e = (*e)[0]->getNumChildren() > 1 && isLeft && i > 0 ? (*(*e)[0])[1] : (*e)[1];
    if (isLeft && i == 0 && n > 0)
    {
      e = n == 1 ? e : e;
    }
  }
  return e;""")],
         files={'t.eo': LST + eq(('(eo::list_erase l (l a b c) c)', '(l a b)'), ('(eo::list_erase l (l a b c) b)', '(l a c)'))},
         demo=['correct t.eo'],
         needs='eo::list_erase on a left-associative list',
         breaks='the tail is taken on the wrong side'),
    dict(id='stuck-builtin-arg', prop='B03',
         edits=[('src/type_checker.cpp', """    if (children[j]->isEvaluatable())
    {
      return d_null;
    }
  }
  ExprValue* hd = children[0];""", """    if (children[j]->isEvaluatable() && children[j]->getKind() == Kind::APPLY)
    {
      return d_null;
    }
  }
  ExprValue* hd = children[0];""")],
         files={'t.eo': U + """(declare-const Int Type)
(declare-consts <numeral> Int)
(program k ((x Int)) :signature (Int) Int (((k x) 0)))
""" + eq(('(eo::is_ok (k (eo::zdiv 1 0)))', 'false'))},
         demo=['correct t.eo'],
         needs='a program applied to a stuck application of a builtin operator',
         breaks='the program evaluates although an argument is not a value'),
    dict(id='ns-empty', prop='T02',
         edits=[('src/state.cpp', """if (isNsNil && nlistTerms<2)""", """if (isNsNil && nlistTerms == 1)""")],
         files={'t.eo': U + """(declare-const U.nil U)
(declare-const f (-> U U U) :right-assoc-non-singleton-nil U.nil)
(program app ((xs U :list) (ys U :list)) :signature (U U) U (((app xs ys) (f xs ys))))
""" + eq(('(app U.nil (eo::cons f a U.nil))', 'a'), ('(app (f a b) (f c d))', '(f a b c d)'))},
         demo=['correct t.eo'],
         needs='a non-singleton list operator applied to :list arguments only, whose concatenation has one element',
         breaks='the singleton list is not reduced to its element'),
    dict(id='esc-brace', prop='L01',
         edits=[('src/util/string.cpp', """          isStart = false;
          // possibly read '{'
          if (si == '{')
          {
            hasBrace = true;""", """          // possibly read '{'
          if (si == '{')
          {
            isStart = false;
            hasBrace = true;""")],
         files={'t.eo': """(declare-const S Type)
(declare-consts <string> S)
(declare-const Int Type)
(declare-consts <numeral> Int)
""" + eq(('(eo::len "\\u1{23}")', '7'), ('(eo::len "\\u{123}")', '1'), ('(eo::len "\\u0123")', '1'))},
         demo=['correct t.eo'],
         needs='a brace after the first hexadecimal digit of an escape sequence',
         breaks='text that is not an escape sequence is decoded'),
    dict(id='nested-first', prop='P03',
         edits=[('src/cmd_parser.cpp', """      d_state.notifyAssume(name, proven, (tok == Token::ASSUME_PUSH));
""", """      d_state.notifyAssume(name, proven, (tok == Token::ASSUME_PUSH || d_state.getAssumptionLevel() > 1));
""")],
         files={'ref.smt2': """(declare-const F Bool)
(assert F)
""", 't.eo': """(declare-const F Bool)
(declare-const G Bool)
(declare-const => (-> Bool Bool Bool))
(declare-rule scope ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (=> x y))
(reference "ref.smt2")
(assume-push p F)
(assume-push q F)
(assume r G)
(step-pop s :rule scope :premises (r))
(step-pop t :rule scope :premises (s))
(step-pop u :rule scope :premises (t))
"""},
         demo=['error t.eo'],
         needs='an assume command two assumption levels deep',
         breaks='an assumption that is no assertion of the reference is accepted'),

    dict(id='eq-stuck', prop='A04',
         edits=[('src/type_checker.cpp', """      if (!args[0]->isEvaluatable() && !args[1]->isEvaluatable())
      {
        return d_state.mkBool(args[0] == args[1]);""", """      if (args[0] == args[1] || (!args[0]->isEvaluatable() && !args[1]->isEvaluatable()))
      {
        return d_state.mkBool(args[0] == args[1]);""")],
         files={'t.eo': U + eq(('(eo::is_ok (eo::eq (eo::neg a) (eo::neg a)))', 'false'))},
         demo=['correct t.eo'], needs='equality of a stuck term with itself', breaks='eo::eq evaluates on a stuck term'),
    dict(id='bv-extract-hi', prop='A02',
         edits=[('src/literal.cpp', """            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
            if (v1>v2)""", """            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
            if (v1>v2)""")],
         files={'t.eo': U + eq(('(eo::extract #b1010 0 4)', '#b1010'))},
         demo=['correct t.eo'], needs='an upper index equal to the width', breaks='the extracted bit-vector is one bit wider than the argument'),
    dict(id='decimal-table', prop='B01',
         edits=[('src/state.cpp', """      size_t i = k==Kind::DECIMAL ? 0 : 1;
      std::unordered_map<Rational, Expr, RationalHashFunction>& m = d_litRatMap[i];
      std::unordered_map<Rational, Expr, RationalHashFunction>::iterator it = m.find(l.d_rat);""", """      size_t i = k==Kind::DECIMAL && !l.d_rat.isIntegral() ? 0 : 1;
      std::unordered_map<Rational, Expr, RationalHashFunction>& m = d_litRatMap[i];
      std::unordered_map<Rational, Expr, RationalHashFunction>::iterator it = m.find(l.d_rat);""")],
         files={'t.eo': """(declare-const D Type)
(declare-const Q Type)
(declare-consts <decimal> D)
(declare-consts <rational> Q)
""" + eq(('(eo::eq 2/1 2.0)', 'false'))},
         demo=['correct t.eo --no-normalize-dec'], needs='--no-normalize-dec and a decimal and a rational literal with the same integral value', breaks='literals of different categories become one term'),
    dict(id='requires-param', prop='A04',
         edits=[('src/type_checker.cpp', """      if (args[0]->isGround() && !args[0]->isEvaluatable()
          && args[1]->isGround() && !args[1]->isEvaluatable()
          && args[0] == args[1])""", """      if (!args[0]->isEvaluatable()
          && !args[1]->isEvaluatable()
          && args[0] == args[1])""")],
         files={'t.eo': U + """(define g ((x U)) (eo::requires x x a))
""" + eq(('(eo::is_ok (g (eo::neg a)))', 'false'))},
         demo=['correct t.eo'], needs='eo::requires on a parameter and itself, later instantiated with a stuck term', breaks='the requirement is discharged before the parameter is known to be a value'),
    dict(id='as-back', prop='P02',
         edits=[('src/state.cpp', "        children.push_back(as[0]);", "        children.push_back(as.back());")],
         files={'t.eo': """(declare-const F Bool)
(declare-const G Bool)
(declare-const => (-> Bool Bool Bool))
(declare-rule scope ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (=> x y))
(assume-push p F)
(assume g G)
(step-pop q (=> F G) :rule scope :premises (g))
"""},
         demo=['correct t.eo'], needs='an assumption made inside the scope of a pushed assumption', breaks='the scope is discharged with the wrong assumption'),
    dict(id='ref-raw', prop='P03',
         edits=[('src/state.cpp', """  d_referenceAsserts.insert(aa.getValue());
""", """  d_referenceAsserts.insert(aa.getValue());
  d_referenceAsserts.insert(a.getValue());
""")],
         files={'t.eo': """(declare-const F Bool)
(declare-const G Bool)
(declare-const H Bool)
(program nf ((x Bool)) :signature (Bool) Bool
  (
  ((nf F) G)
  ((nf G) F)
  ((nf x) x)
  )
)
(reference "r.smt2" nf)
(assume p G)
""", 'r.smt2': "(assert F)\n"},
         demo=['error t.eo'], needs='a reference with a normalization that is not idempotent', breaks='an assumption is accepted although its normal form is not that of an assertion'),
    dict(id='reset-level', prop='S03',
         edits=[('src/state.cpp', """  d_assumptions.clear();
  d_assumptionsSizeCtx.clear();
""", """  d_assumptions.clear();
  if (d_declsSizeCtx.empty())
  {
    d_assumptionsSizeCtx.clear();
  }
""")],
         files={'t.eo': """(declare-const F Bool)
(assume-push p F)
(reset)
(include "i.eo")
(declare-const G Bool)
(assume g G)
""", 'i.eo': '(declare-const H Bool)\n'},
         demo=['correct t.eo'], needs='a reset inside the scope of an assumption', breaks='the assumption level survives the reset'),
    dict(id='comment-cr', prop='L02',
         edits=[('src/lexer.cpp', "    while ((ch = nextChar()) != '\\n')", "    while ((ch = nextChar()) != '\\n' && ch != '\\r')")],
         files={'t.eo': b'(declare-const F Bool) ; old\r(assume p F)\n; end\r\n(declare-const G Bool)\n(assume g G)\n(declare-rule r ((x Bool)) :premises (x) :conclusion x)\n(step s G :rule r :premises (g))\n; \r(junk)\n'},
         demo=['correct t.eo'], needs='a carriage return inside a comment, not followed by a line feed', breaks='text inside a comment is read as commands'),
    dict(id='mod-sign', prop='A01',
         edits=[('src/literal.cpp', "args[0]->d_int.euclidianDivideRemainder(d));", "(args[0]->d_int.sgn()<0 && d.sgn()<0 ? args[0]->d_int.floorDivideRemainder(d) : args[0]->d_int.euclidianDivideRemainder(d)));")],
         files={'t.eo': U + eq(('(eo::zmod -7 -2)', '1'))},
         demo=['correct t.eo'], needs='a negative dividend and a negative divisor', breaks='the remainder is negative'),
    dict(id='var-scope', prop='S02',
         edits=[('src/state.cpp', "    if (!t.isNull() && (retType==nullptr || retType==t.getValue()))", "    if (!t.isNull() && (retType==nullptr || ii==0 || retType==t.getValue()))")],
         files={'t.eo': U + """(declare-const V Type)
(declare-const h (-> U V))
(declare-const h (-> U U))
(define x () (eo::as h (-> U Bool)) :type (-> U V))
"""},
         demo=['error t.eo'], needs='a symbol with two meanings, neither of which has the requested type', breaks='a meaning with another type is chosen'),

    dict(id='comment-buffer', prop='L02',
         edits=[('src/lexer.cpp', "    while ((ch = nextChar()) != '\\n')", "    while ((ch = nextChar()) != '\\n' && d_bufferPos < INPUT_BUFFER_SIZE)")],
         files={'t.eo': '(declare-const F Bool)\n; ' + 'x' * 32000 + '\n; ' + '(junk) ' * 500 + '\n(declare-const G Bool)\n'},
         demo=['correct t.eo'], needs='a comment that contains the last character of the input buffer', breaks='the rest of a comment is read as commands'),

    dict(id='pop-conclusion', prop='P01',
         edits=[('src/cmd_parser.cpp', "        if (concTerm != proven)\n        {\n          std::stringstream ss;\n          ss << \"Unexpected", "        if (concTerm != proven && (!isPop || args.empty()))\n        {\n          std::stringstream ss;\n          ss << \"Unexpected")],
         files={'t.eo': """(declare-const F Bool)
(declare-const G Bool)
(declare-const => (-> Bool Bool Bool))
(declare-rule scope ((x Bool) (y Bool) (z Bool)) :assumption x :premises (y) :args (z) :conclusion (=> x z))
(assume-push p F)
(step-pop q (=> F F) :rule scope :premises (p) :args (G))
"""},
         demo=['error t.eo'], needs='a step-pop with arguments whose stated conclusion is wrong', breaks='a step with a wrong conclusion is accepted'),
    dict(id='eval-no-bindings', prop='B04',
         edits=[('src/type_checker.cpp', "      if (!cur->isEvaluatable() && (cur->isGround() || cctx.empty()))", "      if ((!cur->isEvaluatable() && cur->isGround()) || cctx.empty())")],
         files={'t.eo': U + """(program p ((x U)) :signature (U) U
  (
  ((p a) (p b))
  ((p b) c)
  )
)
""" + eq(('(p a)', 'c'))},
         demo=['correct t.eo'], needs='a case without parameters whose result is a recursive call', breaks='the result of the case is not evaluated'),
    dict(id='ns-count', prop='T02',
         edits=[('src/state.cpp', """            curr = mkExprInternal(Kind::EVAL_LIST_CONCAT, cc);
          }
          else
          {
            nlistTerms++;""", """            curr = mkExprInternal(Kind::EVAL_LIST_CONCAT, cc);
            nlistTerms += 2;
          }
          else
          {
            nlistTerms++;""")],
         files={'t.eo': U + """(declare-const U.nil U)
(declare-const f (-> U U U) :right-assoc-non-singleton-nil U.nil)
(program p ((xs U :list) (ys U :list)) :signature (U U) U
  (
  ((p xs ys) (f xs ys))
  )
)
""" + eq(('(p (eo::cons f a U.nil) U.nil)', 'a'))},
         demo=['correct t.eo'], needs='a non-singleton operator applied to list variables whose lists have one element together', breaks='the term is not the one the attribute describes'),
    dict(id='eval-key', prop='B04',
         edits=[('src/type_checker.cpp', "              ExprTrie* et = evalTrie.get(cchildren);", """              // programs of this arity share the arguments
              std::vector<ExprValue*> key(cchildren);
              if (key.size() > 4)
              {
                key[0] = key.back();
              }
              ExprTrie* et = evalTrie.get(key);""")],
         files={'t.eo': U + """(program p ((x U) (y U) (z U) (w U)) :signature (U U U U) U
  (
  ((p x y z w) x)
  )
)
(program q ((x U) (y U) (z U) (w U)) :signature (U U U U) U
  (
  ((q x y z w) y)
  )
)
(declare-const g (-> U U U))
(program m ((x U) (y U)) :signature (U U) U
  (
  ((m x y) (g (p x y x x) (q x y x x)))
  )
)
""" + eq(('(m a b)', '(g a b)'))},
         demo=['correct t.eo'], needs='two programs of four arguments called on the same arguments in one evaluation', breaks='the value of one program is used for another'),
    dict(id='type-cache-fun', prop='M01',
         edits=[('src/state.cpp', "    if (itt != d_typeCache.end())\n    {\n      d_typeCache.erase(itt);", "    if (itt != d_typeCache.end() && k != Kind::FUNCTION_TYPE)\n    {\n      d_typeCache.erase(itt);")],
         files={'t.eo': '(declare-const U Type)\n(declare-const a U)\n(declare-const b U)\n(declare-const f (-> U U U))\n(declare-const p (-> U Bool))\n(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))\n(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))\n(push)\n(declare-const k1 Type)\n(step s1 (P Type) :rule val :args ((eo::typeof (-> k1 U))))\n(pop)\n(step t1 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u1 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k2 Type)\n(step s2 (P Type) :rule val :args ((eo::typeof (-> k2 U))))\n(pop)\n(step t2 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u2 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k3 Type)\n(step s3 (P Type) :rule val :args ((eo::typeof (-> k3 U))))\n(pop)\n(step t3 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u3 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k4 Type)\n(step s4 (P Type) :rule val :args ((eo::typeof (-> k4 U))))\n(pop)\n(step t4 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u4 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k5 Type)\n(step s5 (P Type) :rule val :args ((eo::typeof (-> k5 U))))\n(pop)\n(step t5 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u5 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k6 Type)\n(step s6 (P Type) :rule val :args ((eo::typeof (-> k6 U))))\n(pop)\n(step t6 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u6 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k7 Type)\n(step s7 (P Type) :rule val :args ((eo::typeof (-> k7 U))))\n(pop)\n(step t7 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u7 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n(push)\n(declare-const k8 Type)\n(step s8 (P Type) :rule val :args ((eo::typeof (-> k8 U))))\n(pop)\n(step t8 (P U) :rule val :args ((eo::typeof (f a b))))\n(step u8 (P (-> U U)) :rule val :args ((eo::typeof (f b))))\n'}, demo=['correct t.eo'],
         needs='a function type whose own type was asked for, that is released and another term built in its place',
         breaks='the type recorded for a released term is found for a later term at the same address'),
    dict(id='keep-two', prop='M01',
         edits=[('src/type_checker.cpp', """              for (ExprValue* e : cchildren)
              {
                if (keep.insert(e).second)
                {
                  keepList.emplace_back(e);
                }
              }""", """              for (size_t i = 0; i < 2; i++)
              {
                if (keep.insert(cchildren[i]).second)
                {
                  keepList.emplace_back(cchildren[i]);
                }
              }""")],
         files={'t.eo': '(declare-const U Type)\n(declare-const a U)\n(declare-const f (-> U U U))\n(declare-const g (-> U U))\n(declare-const Int Type)\n(declare-consts <numeral> Int)\n(declare-const tn (-> Int U))\n(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))\n(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))\n(program $val ((x U) (y U) (n Int) (m Int)) :signature (Int U) Int ((($val m (f x y)) (eo::add ($val m x) ($val m y))) (($val m (g x)) (eo::mul 2 ($val m x))) (($val m (tn n)) n)))\n(program $hh ((n Int)) :signature (Int) Int ((($hh n) ($val 1 (f (tn n) (g (tn (eo::add n 1))))))))\n(program $sum ((n Int)) :signature (Int) Int ((($sum 0) 0) (($sum n) (eo::add ($hh n) ($sum (eo::add n -1))))))\n(step s3 (P 24) :rule val :args (($sum 3)))\n(step s8 (P 124) :rule val :args (($sum 8)))\n(step s30 (P 1455) :rule val :args (($sum 30)))\n'}, demo=['correct t.eo'],
         needs='a program with a second argument which is a temporary term, and is released before the evaluation ends',
         breaks='the cache of program values refers to released arguments'),
    dict(id='attr-stale', prop='M01',
         edits=[('src/state.cpp', "          if (it != d_appData.end())\n          {\n            d_appData.erase(it);", "          if (it != d_appData.end() && it->second.d_attrCons != Attr::PAIRWISE)\n          {\n            d_appData.erase(it);")],
         files={'t.eo': '(declare-const U Type)\n(declare-const a U)\n(declare-const f (-> U U U))\n(declare-const g (-> U U))\n(declare-const Int Type)\n(declare-consts <numeral> Int)\n(declare-const q (-> Bool Bool Bool))\n(declare-const tn (-> Int U))\n(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))\n(declare-rule val ((T Type) (x T)) :args (x) :conclusion (P x))\n(push)\n(declare-const u0_0 (-> U U Bool) :pairwise q)\n(declare-const u0_1 (-> U U Bool) :pairwise q)\n(declare-const u0_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v0 (-> U U U U))\n(step s0 (P U) :rule val :args ((eo::typeof (v0 a a a))))\n(pop)\n(push)\n(declare-const u1_0 (-> U U Bool) :pairwise q)\n(declare-const u1_1 (-> U U Bool) :pairwise q)\n(declare-const u1_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v1 (-> U U U U))\n(step s1 (P U) :rule val :args ((eo::typeof (v1 a a a))))\n(pop)\n(push)\n(declare-const u2_0 (-> U U Bool) :pairwise q)\n(declare-const u2_1 (-> U U Bool) :pairwise q)\n(declare-const u2_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v2 (-> U U U U))\n(step s2 (P U) :rule val :args ((eo::typeof (v2 a a a))))\n(pop)\n(push)\n(declare-const u3_0 (-> U U Bool) :pairwise q)\n(declare-const u3_1 (-> U U Bool) :pairwise q)\n(declare-const u3_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v3 (-> U U U U))\n(step s3 (P U) :rule val :args ((eo::typeof (v3 a a a))))\n(pop)\n(push)\n(declare-const u4_0 (-> U U Bool) :pairwise q)\n(declare-const u4_1 (-> U U Bool) :pairwise q)\n(declare-const u4_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v4 (-> U U U U))\n(step s4 (P U) :rule val :args ((eo::typeof (v4 a a a))))\n(pop)\n(push)\n(declare-const u5_0 (-> U U Bool) :pairwise q)\n(declare-const u5_1 (-> U U Bool) :pairwise q)\n(declare-const u5_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v5 (-> U U U U))\n(step s5 (P U) :rule val :args ((eo::typeof (v5 a a a))))\n(pop)\n(push)\n(declare-const u6_0 (-> U U Bool) :pairwise q)\n(declare-const u6_1 (-> U U Bool) :pairwise q)\n(declare-const u6_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v6 (-> U U U U))\n(step s6 (P U) :rule val :args ((eo::typeof (v6 a a a))))\n(pop)\n(push)\n(declare-const u7_0 (-> U U Bool) :pairwise q)\n(declare-const u7_1 (-> U U Bool) :pairwise q)\n(declare-const u7_2 (-> U U Bool) :pairwise q)\n(pop)\n(push)\n(declare-const v7 (-> U U U U))\n(step s7 (P U) :rule val :args ((eo::typeof (v7 a a a))))\n(pop)\n'}, demo=['correct t.eo'],
         needs='a symbol with :pairwise which is released, and another symbol declared in its place',
         breaks='the attribute of a released symbol is found for a later symbol'),
]
