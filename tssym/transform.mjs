// Compiles TypeScript (or JavaScript) to CommonJS, optionally lowering every operation whose operand may be
// symbolic to a call of the symbolic runtime ($).
import { createRequire } from 'node:module'
import fs from 'node:fs'
const req = createRequire('/opt/veriftools/node/node_modules/typescript/package.json')
export const ts = req('typescript')
const f = ts.factory
const K = ts.SyntaxKind

const ARITH = new Map([
  [K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'],
  [K.AsteriskAsteriskToken, '**'],
  [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'],
  [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>'],
  [K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='],
  [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!=='],
  [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='],
])
const COMPOUND = new Map([
  [K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'],
  [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'],
  [K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>'],
])
const LOGICAL = new Map([
  [K.AmpersandAmpersandEqualsToken, K.AmpersandAmpersandToken], [K.BarBarEqualsToken, K.BarBarToken], [K.QuestionQuestionEqualsToken, K.QuestionQuestionToken],
])

const rt = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), name), undefined, args)
const strip = (e) => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(e)) || ts.isSatisfiesExpression(e)) e = e.expression; return e }
const simple = (e) => { e = strip(e); return ts.isIdentifier(e) || e.kind === K.ThisKeyword || (ts.isPropertyAccessExpression(e) && simple(e.expression)) }

// lower is the transformer of one source file.
function lower(file) {
  return (context) => (sf) => {
    const fnName = (n) => {
      if (n.name && n.name.text) {
        let p = n.parent
        if (p && ts.isClassLike(p) && p.name) return p.name.text + '.' + n.name.text
        return n.name.text
      }
      if (ts.isConstructorDeclaration(n) && n.parent.name) return n.parent.name.text + '.constructor'
      if (n.parent && ts.isVariableDeclaration(n.parent) && ts.isIdentifier(n.parent.name)) return n.parent.name.text
      return null
    }
    const cond = (e) => rt('t', visit(e))
    const logic = (op, l, r) => {
      if (op === K.QuestionQuestionToken) return f.createParenthesizedExpression(f.createConditionalExpression(rt('n', l), undefined, r, undefined, rt('r')))
      if (op === K.AmpersandAmpersandToken) return f.createParenthesizedExpression(f.createConditionalExpression(rt('p', l), undefined, r, undefined, rt('r')))
      return f.createParenthesizedExpression(f.createConditionalExpression(rt('p', l), undefined, rt('r'), undefined, r))
    }
    const assignTo = (target, value) => {
      const t = strip(target)
      if (ts.isElementAccessExpression(t)) return rt('set', visit(t.expression), visit(t.argumentExpression), value)
      return f.createParenthesizedExpression(f.createAssignment(visit(t), value))
    }
    const incr = (n, old) => {
      const op = n.operator === K.PlusPlusToken ? '+' : '-', back = op === '+' ? '-' : '+'
      const one = f.createNumericLiteral(1), l = strip(n.operand)
      let e
      if (ts.isElementAccessExpression(l)) e = rt('upd', visit(l.expression), visit(l.argumentExpression), f.createStringLiteral(op), one)
      else if (simple(l)) e = f.createParenthesizedExpression(f.createAssignment(visit(l), rt('b', f.createStringLiteral(op), visit(l), one)))
      else throw new Error('tssym: increment not supported: ' + n.getText())
      return old ? rt('b', f.createStringLiteral(back), e, one) : e
    }
    const visit = (n) => {
      if (!n) return n
      if (n.kind === K.InKeyword) return n
      if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return n
      if (ts.isBinaryExpression(n)) {
        const op = n.operatorToken.kind
        if (ARITH.has(op)) return rt('b', f.createStringLiteral(ARITH.get(op)), visit(n.left), visit(n.right))
        if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken) return logic(op, visit(n.left), visit(n.right))
        if (op === K.InKeyword) return rt('in', visit(n.left), visit(n.right))
        if (op === K.InstanceOfKeyword) return rt('io', visit(n.left), visit(n.right))
        if (COMPOUND.has(op)) {
          const l = strip(n.left)
          if (simple(l)) return assignTo(l, rt('b', f.createStringLiteral(COMPOUND.get(op)), visit(l), visit(n.right)))
          if (ts.isElementAccessExpression(l)) return rt('upd', visit(l.expression), visit(l.argumentExpression), f.createStringLiteral(COMPOUND.get(op)), visit(n.right))
          throw new Error('tssym: compound assignment not supported: ' + n.getText())
        }
        if (LOGICAL.has(op)) {
          const l = strip(n.left)
          if (!simple(l)) throw new Error('tssym: logical assignment not supported: ' + n.getText())
          return logic(LOGICAL.get(op), visit(l), assignTo(l, visit(n.right)))
        }
        if (op === K.EqualsToken) {
          const l = strip(n.left)
          if (ts.isElementAccessExpression(l)) return rt('set', visit(l.expression), visit(l.argumentExpression), visit(n.right))
        }
      }
      if (ts.isPrefixUnaryExpression(n)) {
        const op = { [K.ExclamationToken]: '!', [K.MinusToken]: '-', [K.PlusToken]: '+', [K.TildeToken]: '~' }[n.operator]
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) return incr(n, false)
        if (op) {
          if (ts.isNumericLiteral(n.operand)) return ts.visitEachChild(n, visit, context)
          return rt('u', f.createStringLiteral(op), visit(n.operand))
        }
      }
      if (ts.isPostfixUnaryExpression(n)) return incr(n, !(n.parent && (ts.isExpressionStatement(n.parent) || (ts.isForStatement(n.parent) && n.parent.incrementor === n))))
      if (n.questionDotToken && (ts.isElementAccessExpression(n) || (ts.isCallExpression(n) && ts.isElementAccessExpression(strip(n.expression))))) {
        if (ts.isElementAccessExpression(n) && !(n.parent && (ts.isPropertyAccessExpression(n.parent) || ts.isElementAccessExpression(n.parent) || ts.isCallExpression(n.parent)) && n.parent.expression === n)) {
          return f.createParenthesizedExpression(f.createConditionalExpression(rt('n', visit(n.expression)), undefined, f.createIdentifier('undefined'), undefined, rt('get', rt('r'), visit(n.argumentExpression))))
        }
        throw new Error('tssym: optional chain not supported: ' + n.getText())
      }
      if (ts.isTypeOfExpression(n)) return rt('ty', visit(n.expression))
      if (ts.isConditionalExpression(n)) return f.updateConditionalExpression(n, cond(n.condition), n.questionToken, visit(n.whenTrue), n.colonToken, visit(n.whenFalse))
      if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(n.expression), visit(n.thenStatement), visit(n.elseStatement))
      if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(n.expression), visit(n.statement))
      if (ts.isDoStatement(n)) return f.updateDoStatement(n, visit(n.statement), cond(n.expression))
      if (ts.isForStatement(n)) return f.updateForStatement(n, visit(n.initializer), n.condition ? cond(n.condition) : rt('t', f.createTrue()), visit(n.incrementor), visit(n.statement))
      if (ts.isSwitchStatement(n)) {
        const clauses = n.caseBlock.clauses.map((c) => ts.isDefaultClause(c)
          ? f.updateDefaultClause(c, c.statements.map(visit))
          : f.updateCaseClause(c, rt('sc', visit(c.expression)), c.statements.map(visit)))
        return f.updateSwitchStatement(n, rt('sw', visit(n.expression)), f.updateCaseBlock(n.caseBlock, clauses))
      }
      if (ts.isTemplateExpression(n)) {
        const strs = [f.createStringLiteral(n.head.text), ...n.templateSpans.map((s) => f.createStringLiteral(s.literal.text))]
        return rt('tm', f.createArrayLiteralExpression(strs), f.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression))))
      }
      if (ts.isDeleteExpression(n) && ts.isElementAccessExpression(strip(n.expression))) {
        const l = strip(n.expression)
        return rt('del', visit(l.expression), visit(l.argumentExpression))
      }
      if (ts.isCallExpression(n)) {
        const callee = strip(n.expression)
        if (ts.isElementAccessExpression(callee) && !callee.questionDotToken && !ts.isSuperKeyword?.(callee.expression)) {
          return rt('ck', visit(callee.expression), visit(callee.argumentExpression), f.createArrayLiteralExpression(n.arguments.map(visit)))
        }
      }
      if (ts.isElementAccessExpression(n) && !n.questionDotToken && n.expression.kind !== K.SuperKeyword && !ts.isOptionalChain(n)) {
        return rt('get', visit(n.expression), visit(n.argumentExpression))
      }
      if (ts.isFunctionLike(n) && n.body) {
        const name = fnName(n)
        const out = ts.visitEachChild(n, visit, context)
        if (name && ts.isBlock(out.body)) {
          let stmts = [...out.body.statements]
          const mark = f.createExpressionStatement(rt('fn', f.createStringLiteral(file + ':' + name)))
          // a derived constructor may not do anything else before super(), a marker is harmless
          let i = 0
          while (i < stmts.length && ts.isExpressionStatement(stmts[i]) && ts.isStringLiteral(stmts[i].expression)) i++
          stmts.splice(i, 0, mark)
          const body = f.updateBlock(out.body, stmts)
          if (ts.isMethodDeclaration(out)) return f.updateMethodDeclaration(out, out.modifiers, out.asteriskToken, out.name, out.questionToken, out.typeParameters, out.parameters, out.type, body)
          if (ts.isConstructorDeclaration(out)) return f.updateConstructorDeclaration(out, out.modifiers, out.parameters, body)
          if (ts.isFunctionDeclaration(out)) return f.updateFunctionDeclaration(out, out.modifiers, out.asteriskToken, out.name, out.typeParameters, out.parameters, out.type, body)
          if (ts.isArrowFunction(out)) return f.updateArrowFunction(out, out.modifiers, out.typeParameters, out.parameters, out.type, out.equalsGreaterThanToken, body)
          if (ts.isFunctionExpression(out)) return f.updateFunctionExpression(out, out.modifiers, out.asteriskToken, out.name, out.typeParameters, out.parameters, out.type, body)
        }
        return out
      }
      return ts.visitEachChild(n, visit, context)
    }
    return ts.visitEachChild(sf, visit, context)
  }
}

// compile returns the CommonJS text of a source file.
export function compile(path, label, symbolic, src = fs.readFileSync(path, 'utf8')) {
  const out = ts.transpileModule(src, {
    fileName: path,
    reportDiagnostics: true,
    compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true, useDefineForClassFields: true, allowJs: true },
    transformers: symbolic ? { before: [lower(label)] } : undefined,
  })
  const errs = (out.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error)
  if (errs.length) throw new Error(path + ': ' + errs.map((d) => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('; '))
  return out.outputText
}
