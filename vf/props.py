"""Which contracts and which concrete runs decide which property."""

LIT = ['c_util', 'c_literal']
EVAL = ['ethos::Literal::evaluate']

STM = ['c_state', 'c_reset', 'c_cmd']
MAKE = ['c_state', 'c_term', 'c_make']
TC = 'ethos::TypeChecker::'
CORE = ['c_state', 'c_term', 'c_prog', 'c_type', 'c_make', 'c_list', 'c_util', 'c_core']
COREV = dict(mods=CORE, roots=[TC + 'evaluateLiteralOp', TC + 'evaluateLiteralOpInternal'])
CMD = ['ethos::CmdParser::parseNextCommand']
STATE = ['fields of State are not written through references or pointers handed out (writers of the fields are enumerated syntactically on every run)',
         'termination is not proved (partial correctness)']

# fields the contracts rely on -> functions that may write them (checked on every run, vf/frame.py)
FRAME = {
    'State.d_symTable': ['State::State', 'State::bind', 'State::popScope', 'State::reset'],
    'State.d_ruleSymTable': ['State::State', 'State::bind', 'State::reset'],
    'State.d_overloads': ['State::State', 'State::bind', 'State::getOverloads', 'State::popScope', 'State::reset'],
    'State.d_overloadedDecls': ['State::State', 'State::bind', 'State::popScope', 'State::reset'],
    'State.d_decls': ['State::State', 'State::bind', 'State::includeFile', 'State::popScope', 'State::reset'],
    'State.d_declsSizeCtx': ['State::State', 'State::includeFile', 'State::popScope', 'State::pushScope', 'State::reset'],
    'State.d_assumptions': ['State::State', 'State::addAssumption', 'State::popAssumptionScope', 'State::reset'],
    'State.d_assumptionsSizeCtx': ['State::State', 'State::addAssumption', 'State::popAssumptionScope', 'State::pushAssumptionScope', 'State::reset'],
    'State.d_assumptionsDeclsCtx': ['State::State', 'State::popAssumptionScope', 'State::pushAssumptionScope', 'State::reset'],
    'State.d_pfrSorry': ['State::State', 'State::markDeleted', 'State::markProofRuleSorry'],
    'State.d_isIncomplete': ['State::State', 'State::markIncomplete'],
    'State.d_hasReference': ['State::State', 'State::includeFile'],
    'State.d_referenceNf': ['State::State', 'State::includeFile'],
    'State.d_referenceAsserts': ['State::State', 'State::addAssumption', 'State::addReferenceAssert'],
    'State.d_referenceAssertList': ['State::State', 'State::addReferenceAssert'],
    'State.d_null': ['State::State'], 'State.d_any': ['State::State'], 'State.d_true': ['State::State', 'State::mkLiteral'],
    'State.d_builtinSymTable': ['State::State'],
    'State.d_appData': ['State::State', 'State::bind', 'State::bindBuiltin', 'State::getAppInfo', 'State::markConstructorKind', 'State::markDeleted', 'State::mkBinderList',
                        'State::mkLetBinderList'],
    'State.d_trie': ['State::State', 'State::mkExprInternal', 'State::markDeleted'],
    **{'State.' + t: ['State::State', 'State::mkLiteralInternal', 'State::markDeleted', 'State::reset'] for t in ('d_litIntMap', 'd_litRatMap', 'd_litBvMap', 'd_litStrMap')},
    'State.d_toDelete': ['State::State', 'State::markDeleted'], 'State.d_inGarbageCollection': ['State::State', 'State::markDeleted'],
    'State.d_false': ['State::State', 'State::mkLiteral'],
    'State.d_hashMap': ['State::State', 'State::getHash'], 'State.d_hashCounter': ['State::State', 'State::getHash'],
    'State.d_boundVars': ['State::State', 'State::getBoundVar'], 'State.d_listNil': ['State::State', 'State::mkListNil'], 'State.d_listCons': ['State::State', 'State::mkListCons'],
    'State.d_typeCache': ['State::State', 'State::mkSymbolInternal', 'State::reset', 'State::markDeleted', 'TypeChecker::getType'],
}


def frame(*fields):
    return {'State.' + f: FRAME['State.' + f] for f in fields}


SCOPE = ('d_symTable', 'd_overloads', 'd_overloadedDecls', 'd_decls', 'd_declsSizeCtx')
ASM = ('d_assumptions', 'd_assumptionsSizeCtx', 'd_assumptionsDeclsCtx')
REF = ('d_hasReference', 'd_referenceNf', 'd_referenceAsserts', 'd_referenceAssertList')

COREF = dict(frame('d_null', 'd_true', 'd_false', 'd_appData', 'd_hashMap', 'd_hashCounter', 'd_boundVars', 'd_listNil', 'd_listCons'), **{'TypeChecker.d_negOne': ['TypeChecker::TypeChecker', 'TypeChecker::evaluateLiteralOpInternal']})

LX = ['Lexer::Lexer', 'Lexer::initialize']
LEXF = {'Lexer.' + k: v for k, v in {
    'd_charClass': LX[:1], 'd_lexLet': LX[:1], 'd_lexType': LX[:1], 'd_buffer': ['Lexer::readNextChar'], 'd_bufferPos': LX + ['Lexer::readNextChar'], 'd_bufferEnd': LX + ['Lexer::readNextChar'],
    'd_peekedChar': LX + ['Lexer::nextChar', 'Lexer::saveChar'], 'd_chPeeked': LX + ['Lexer::nextChar', 'Lexer::saveChar'], 'd_istream': LX + ['Lexer::readNextChar'],
    'd_token': LX + ['Lexer::nextTokenInternal', 'Lexer::pushToToken'], 'd_peeked': LX + ['Lexer::nextToken', 'Lexer::reinsertToken']}.items()}

# id -> modules with contracts, root functions (their callees under contract
# are verified as well), modules with concrete runs, lemma files
PROPS = {
    'A01': dict(mods=LIT, roots=EVAL, conc=['g_ops'], lemmas=['Arith']),
    'A02': dict(mods=LIT, roots=EVAL, conc=['g_ops'], lemmas=['Arith']),
    'A03': dict(mods=LIT, roots=EVAL, conc=['g_ops'], lemmas=['Arith']),
    'A04': dict(variants=[dict(mods=LIT, roots=EVAL), COREV], conc=['g_ops', 'g_core'], lemmas=['Arith'], frame=COREF),
    'A05': dict(variants=[COREV], conc=['g_core'], lemmas=['Card'], frame=COREF),
    'B01': dict(mods=['c_state', 'c_ident'], roots=['ethos::State::mkExprInternal', 'ethos::State::mkLiteralInternal', 'ethos::ExprTrie::get', 'ethos::ExprTrie::remove'],
                conc=['g_term'], frame=dict(frame('d_trie', 'd_litIntMap', 'd_litRatMap', 'd_litBvMap', 'd_litStrMap', 'd_true', 'd_false'),
                                            **{'ExprTrie.d_data': ['ExprTrie::ExprTrie', 'ExprTrie::remove', 'State::mkExprInternal', 'TypeChecker::evaluate'], 'ExprTrie.d_children': ['ExprTrie::ExprTrie', 'ExprTrie::get', 'ExprTrie::remove'],
                                               'ExprValue.d_children': ['ExprValue::ExprValue', 'ExprValue::~ExprValue', 'ExprValue::computeFlags', 'Expr::operator[]'] + ['TypeChecker::' + f for f in (
                                                   'evaluate', 'evaluateProgramInternal', 'getType', 'getTypeAppInternal', 'getTypeInternal', 'match')], 'ExprValue.d_kind': ['ExprValue::ExprValue', 'Literal::Literal', 'Literal::operator=']})),
    'B02': dict(mods=['c_term'], roots=['ethos::TypeChecker::match', 'ethos::ExprValue::isGround', 'ethos::ExprValue::isEvaluatable',
                                        'ethos::ExprValue::computeFlags'], conc=['g_term'],
                assumptions=['terms are finite and acyclic (children exist before the term; no function writes children after construction)',
                             'cached flags are written by the constructor and computeFlags only',
                             'termination is not proved (partial correctness)']),
    'B03': dict(mods=['c_term', 'c_prog'], roots=[TC + 'evaluateProgramInternal', TC + 'evaluateProgramApp', TC + 'isGround', TC + 'match'], conc=['g_term'],
                frame=frame('d_null', 'd_appData')),
    'B04': dict(variants=[dict(mods=['c_util', 'c_state', 'c_term', 'c_prog', 'c_eval'], roots=[TC + 'evaluate', TC + 'match']),
                          dict(mods=['c_term', 'c_prog'], roots=[TC + 'evaluateProgramInternal', TC + 'isGround']),
                          dict(mods=['c_state', 'c_ident'], roots=['ethos::ExprTrie::get', 'ethos::State::mkExprInternal'])], conc=['g_term'],
                frame=dict(frame('d_null', 'd_appData', 'd_trie'), **{'ExprTrie.d_data': ['ExprTrie::ExprTrie', 'ExprTrie::remove', 'State::mkExprInternal', 'TypeChecker::evaluate'],
                                                                      'ExprTrie.d_children': ['ExprTrie::ExprTrie', 'ExprTrie::get', 'ExprTrie::remove']})),
    'T01': dict(mods=['c_state', 'c_reset', 'c_term', 'c_prog', 'c_type'], roots=[TC + 'getType', 'ethos::ExprParser::typeCheck', 'ethos::State::mkFunctionType'], conc=['g_type'],
                frame=dict(frame('d_null', 'd_any', 'd_typeCache'), **{'TypeChecker.d_literalTypeRules': [TC.split('ethos::')[1] + f for f in (
                    'TypeChecker', 'setLiteralTypeRule', 'getOrSetLiteralTypeRule', 'clearLiteralTypeRules')]})),
    'T02': dict(mods=MAKE, roots=['ethos::State::' + f for f in ('mkExpr', 'mkApplyAttr', 'mkApplyInternal')] + [TC + 'computeConstructorTermInternal'], conc=['g_type'],
                frame=frame('d_null', 'd_appData'), assumptions=['fields of State are not written through references or pointers handed out (writers of the fields are enumerated syntactically on every run)']),
    'P01': dict(mods=STM, roots=CMD + ['ethos::State::notifyStep'], conc=['g_proof'], assumptions=STATE, frame=frame('d_null', 'd_any', 'd_true', 'd_ruleSymTable')),
    'P02': dict(mods=STM, roots=CMD + ['ethos::State::' + f for f in ('pushAssumptionScope', 'popAssumptionScope', 'isAssumptionScope', 'getAssumptionLevel',
                                                                     'getCurrentAssumptions', 'pushScope', 'popScope')], conc=['g_proof'], assumptions=STATE, frame=frame(*ASM, *SCOPE)),
    'P03': dict(mods=STM, roots=CMD + ['ethos::State::' + f for f in ('addAssumption', 'addReferenceAssert', 'hasReference')], conc=['g_proof', 'g_err'], assumptions=STATE,
                frame=frame(*REF, *ASM)),
    'P04': dict(mods=STM, roots=CMD + ['ethos::State::' + f for f in ('markProofRuleSorry', 'isProofRuleSorry', 'markIncomplete', 'isIncomplete')], conc=['g_proof', 'g_err'],
                assumptions=STATE, frame=frame('d_pfrSorry', 'd_isIncomplete')),
    'M01': dict(mods=['c_state', 'c_ident', 'c_rc'], roots=['ethos::State::markDeleted', 'ethos::ExprValue::inc', 'ethos::ExprValue::dec', 'ethos::ExprValue::ExprValue', 'ethos::Expr::Expr',
                'ethos::Expr::~Expr', 'ethos::Expr::operator=', 'ethos::ExprTrie::remove'], conc=['g_mem'], flags=('-O1', '-g', '-fsanitize=address'), assumptions=STATE + ['code that holds raw ExprValue pointers across statements holds a handle meanwhile (bounded: AddressSanitizer runs)'],
                frame=dict(frame('d_trie', 'd_typeCache', 'd_appData', 'd_pfrSorry', 'd_toDelete', 'd_inGarbageCollection'), **{'ExprValue.d_rc': ['ExprValue::ExprValue', 'ExprValue::inc', 'ExprValue::dec'],
                           'Expr.d_value': ['Expr::Expr', 'Expr::~Expr', 'Expr::operator=']})),
    'S01': dict(mods=STM, frame=frame(*SCOPE), roots=CMD + ['ethos::State::' + f for f in ('bind', 'pushScope', 'popScope', 'getVar', 'getProofRule')], conc=['g_scope'], assumptions=STATE),
    'S02': dict(variants=[dict(mods=STM, roots=['ethos::State::' + f for f in ('bind', 'pushScope', 'popScope')]), dict(mods=MAKE, roots=['ethos::State::mkExpr', 'ethos::State::getOverloadInternal'])],
                conc=['g_scope'], assumptions=STATE, frame=frame(*SCOPE, 'd_null', 'd_appData')),
    'S03': dict(mods=STM, roots=CMD + ['ethos::State::reset', TC + 'clearLiteralTypeRules', TC + 'setLiteralTypeRule', TC + 'getOrSetLiteralTypeRule'], conc=['g_scope'], assumptions=STATE,
                frame=frame(*SCOPE, *ASM, 'd_ruleSymTable', 'd_builtinSymTable', 'd_typeCache')),
    'L01': dict(variants=[dict(mods=['c_quote'], roots=['ethos::String::' + f for f in ('toInternal', 'toString')] + ['ethos::ExprParser::unescapeString', 'ethos::ExprParser::parseStr', 'ethos::State::mkLiteral'], domain=dict(opaque_str=False))], conc=['g_lex']),
    'L02': dict(variants=[dict(mods=['c_quote'], roots=['ethos::Lexer::' + f for f in ('Lexer', 'initialize', 'nextToken', 'peekToken', 'reinsertToken', 'eatToken', 'eatTokenChoice', 'tokenStr')]
                                + ['ethos::ExprParser::' + f for f in ('tokenStrToSymbol', 'parseSymbol', 'parseKeyword')] + ['ethos::Rational::fromDecimal', 'ethos::State::mkLiteral'], domain=dict(opaque_str=False))],
                conc=['g_lex'], frame=LEXF),
}
