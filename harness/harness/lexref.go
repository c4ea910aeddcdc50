package harness

import (
	"unicode"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

// An independent description of ECMAScript's lexical grammar (ES2022 section
// 12) for the goal symbol InputElementDiv, without templates and without
// escapes in identifiers.

func refLineTerm(r rune) bool {
	return r == 0x0a || r == 0x0d || r == 0x2028 || r == 0x2029
}

func refWhiteSpace(r rune) bool {
	return r == 0x09 || r == 0x0b || r == 0x0c || r == 0xfeff || unicode.Is(unicode.Zs, r)
}

func refIDStart(r rune) bool {
	return r == '$' || r == '_' || (unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) && !unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space))
}

func refIDContinue(r rune) bool {
	return r == '$' || r == '_' || r == 0x200c || r == 0x200d ||
		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue) && !unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space))
}

func refDigit(r rune) bool    { return r >= '0' && r <= '9' }
func refOctDigit(r rune) bool { return r >= '0' && r <= '7' }
func refBinDigit(r rune) bool { return r == '0' || r == '1' }
func refHexDigit(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}

// skipTrivia returns the position after white space, line terminators and
// comments from i on, whether a line terminator was among them, and whether a
// comment was left open.
func skipTrivia(rs []rune, i int) (end int, nl bool, open bool) {
	for i < len(rs) {
		r := rs[i]
		if refLineTerm(r) {
			nl = true
			i++
			continue
		}
		if refWhiteSpace(r) {
			i++
			continue
		}
		if r == '/' && i+1 < len(rs) {
			if rs[i+1] == '/' {
				i += 2
				for i < len(rs) && !refLineTerm(rs[i]) {
					i++
				}
				continue
			}
			if rs[i+1] == '*' {
				i += 2
				closed := false
				for i < len(rs) {
					if rs[i] == '*' && i+1 < len(rs) && rs[i+1] == '/' {
						i += 2
						closed = true
						break
					}
					if refLineTerm(rs[i]) {
						nl = true
					}
					i++
				}
				if !closed {
					return i, nl, true
				}
				continue
			}
		}
		break
	}
	return i, nl, false
}

type punct struct {
	s string
	t lexer.TokenType
}

// puncts in order of decreasing length.
var puncts = []punct{
	{">>>=", lexer.TokenPunctuatorUnsignedRShiftAssign},
	{"...", lexer.TokenPunctuatorEllipsis},
	{"===", lexer.TokenPunctuatorStrictEqual},
	{"!==", lexer.TokenPunctuatorStrictNotEqual},
	{"**=", lexer.TokenPunctuatorExponentAssign},
	{"<<=", lexer.TokenPunctuatorLShiftAssign},
	{">>=", lexer.TokenPunctuatorRShiftAssign},
	{">>>", lexer.TokenPunctuatorUnsignedRShift},
	{"&&=", lexer.TokenPunctuatorLogicalAndAssign},
	{"||=", lexer.TokenPunctuatorLogicalOrAssign},
	{"??=", lexer.TokenPunctuatorNullCoalesceAssign},
	{"?.", lexer.TokenPunctuatorOptionalChain},
	{"<=", lexer.TokenPunctuatorLessThanEqual},
	{">=", lexer.TokenPunctuatorGreaterThanEqual},
	{"==", lexer.TokenPunctuatorEqual},
	{"!=", lexer.TokenPunctuatorNotEqual},
	{"**", lexer.TokenPunctuatorExponent},
	{"++", lexer.TokenPunctuatorIncrement},
	{"--", lexer.TokenPunctuatorDecrement},
	{"<<", lexer.TokenPunctuatorLShift},
	{">>", lexer.TokenPunctuatorRShift},
	{"&&", lexer.TokenPunctuatorLogicalAnd},
	{"||", lexer.TokenPunctuatorLogicalOr},
	{"??", lexer.TokenPunctuatorNullCoalesce},
	{"+=", lexer.TokenPunctuatorPlusAssign},
	{"-=", lexer.TokenPunctuatorMinusAssign},
	{"*=", lexer.TokenPunctuatorMultAssign},
	{"/=", lexer.TokenPunctuatorDivAssign},
	{"%=", lexer.TokenPunctuatorModAssign},
	{"&=", lexer.TokenPunctuatorBitAndAssign},
	{"|=", lexer.TokenPunctuatorBitOrAssign},
	{"^=", lexer.TokenPunctuatorBitXorAssign},
	{"=>", lexer.TokenPunctuatorFatArrow},
	{"{", lexer.TokenPunctuatorOpenBrace},
	{"(", lexer.TokenPunctuatorOpenParen},
	{"[", lexer.TokenPunctuatorOpenBracket},
	{"]", lexer.TokenPunctuatorCloseBracket},
	{")", lexer.TokenPunctuatorCloseParen},
	{"}", lexer.TokenPunctuatorCloseBrace},
	{".", lexer.TokenPunctuatorDot},
	{";", lexer.TokenPunctuatorSemicolon},
	{",", lexer.TokenPunctuatorComma},
	{"<", lexer.TokenPunctuatorLessThan},
	{">", lexer.TokenPunctuatorGreaterThan},
	{"+", lexer.TokenPunctuatorPlus},
	{"-", lexer.TokenPunctuatorMinus},
	{"*", lexer.TokenPunctuatorMult},
	{"/", lexer.TokenPunctuatorDiv},
	{"%", lexer.TokenPunctuatorMod},
	{"&", lexer.TokenPunctuatorBitAnd},
	{"|", lexer.TokenPunctuatorBitOr},
	{"^", lexer.TokenPunctuatorBitXor},
	{"!", lexer.TokenPunctuatorNot},
	{"~", lexer.TokenPunctuatorBitNot},
	{"?", lexer.TokenPunctuatorQuestionMark},
	{":", lexer.TokenPunctuatorColon},
	{"=", lexer.TokenPunctuatorAssign},
}

// keywords and their token types.
var keywords = []punct{
	{"as", lexer.TokenKeywordAs}, {"async", lexer.TokenKeywordAsync}, {"await", lexer.TokenKeywordAwait},
	{"break", lexer.TokenKeywordBreak}, {"case", lexer.TokenKeywordCase}, {"catch", lexer.TokenKeywordCatch},
	{"class", lexer.TokenKeywordClass}, {"const", lexer.TokenKeywordConst}, {"continue", lexer.TokenKeywordContinue},
	{"debugger", lexer.TokenKeywordDebugger}, {"default", lexer.TokenKeywordDefault}, {"delete", lexer.TokenKeywordDelete},
	{"do", lexer.TokenKeywordDo}, {"else", lexer.TokenKeywordElse}, {"enum", lexer.TokenKeywordEnum},
	{"export", lexer.TokenKeywordExport}, {"extends", lexer.TokenKeywordExtends}, {"false", lexer.TokenKeywordFalse},
	{"finally", lexer.TokenKeywordFinally}, {"for", lexer.TokenKeywordFor}, {"from", lexer.TokenKeywordFrom},
	{"function", lexer.TokenKeywordFunction}, {"get", lexer.TokenKeywordGet}, {"if", lexer.TokenKeywordIf},
	{"implements", lexer.TokenKeywordImplements}, {"import", lexer.TokenKeywordImport}, {"in", lexer.TokenKeywordIn},
	{"instanceof", lexer.TokenKeywordInstanceOf}, {"interface", lexer.TokenKeywordInterface}, {"let", lexer.TokenKeywordLet},
	{"meta", lexer.TokenKeywordMeta}, {"new", lexer.TokenKeywordNew}, {"null", lexer.TokenKeywordNull},
	{"of", lexer.TokenKeywordOf}, {"package", lexer.TokenKeywordPackage}, {"private", lexer.TokenKeywordPrivate},
	{"protected", lexer.TokenKeywordProtected}, {"public", lexer.TokenKeywordPublic}, {"return", lexer.TokenKeywordReturn},
	{"set", lexer.TokenKeywordSet}, {"static", lexer.TokenKeywordStatic}, {"super", lexer.TokenKeywordSuper},
	{"switch", lexer.TokenKeywordSwitch}, {"target", lexer.TokenKeywordTarget}, {"this", lexer.TokenKeywordThis},
	{"throw", lexer.TokenKeywordThrow}, {"true", lexer.TokenKeywordTrue}, {"try", lexer.TokenKeywordTry},
	{"typeof", lexer.TokenKeywordTypeOf}, {"var", lexer.TokenKeywordVar}, {"void", lexer.TokenKeywordVoid},
	{"while", lexer.TokenKeywordWhile}, {"with", lexer.TokenKeywordWith}, {"yield", lexer.TokenKeywordYield},
}
