'use strict'
// Runs a Quint module step by step with Quint's own parser and evaluator (the TypeScript
// back end of `quint run`), so that an event recorded from the implementation can be put
// into the specification's `ev` variable and its `accept` action evaluated on it.
const path = require('path')
const fs = require('fs')
const Q = '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src'
const { parse } = require(Q + '/parsing/quintParserFrontend')
const { newIdGenerator } = require(Q + '/idGenerator')
const { fileSourceResolver } = require(Q + '/parsing/sourceResolver')
const { Evaluator } = require(Q + '/runtime/impl/evaluator')
const { buildExpr } = require(Q + '/runtime/impl/builder')
const { rv } = require(Q + '/runtime/impl/runtimeValue')
const { newRng } = require(Q + '/rng')
const { right } = require('/opt/veriftools/quint/node_modules/@sweet-monads/either')
const nullRecorder = require(Q + '/runtime/trace').noExecutionListener

class Spec {
  constructor(file, main) {
    const code = fs.readFileSync(file, 'utf8')
    const gen = newIdGenerator()
    const src = new Map()
    const mainPath = fileSourceResolver(src).lookupPath(path.dirname(file), path.basename(file))
    const r = parse(gen, file, mainPath, code, src)
    if (r.errors.length) throw new Error('quint parse: ' + JSON.stringify(r.errors.map(e => e.message)))
    this.gen = gen
    this.table = r.table
    this.defs = r.resolver.collector.definitionsByModule.get(main)
    this.rng = newRng(1n)
    this.ev = new Evaluator(this.table, nullRecorder, this.rng, false)
    this.fns = new Map()
    this.regs = null
  }
  fn(name) {
    let f = this.fns.get(name)
    if (!f) {
      const d = this.defs.get(name)
      const def = Array.isArray(d) ? d[d.length - 1] : d
      if (!def) throw new Error('no definition ' + name)
      const id = this.gen.nextId()
      this.table.set(id, def)
      f = buildExpr(this.ev.builder, { id, kind: 'name', name })
      this.fns.set(name, f)
    }
    return f
  }
  val(name) {
    const r = this.fn(name)(this.ev.ctx)
    if (r.isLeft()) throw new SpecError(name + ': ' + JSON.stringify(r.value.message || r.value))
    return r.value
  }
  init() {
    this.fn('init'); this.fn('accept'); this.fn('wanted')
    this.ev.builder.varStorage.reset()
    if (!this.val('init').toBool()) throw new Error('init is not enabled')
    this.shift()
    if (!this.regs) {
      this.regs = {}
      this.ev.ctx.varStorage.vars.forEach(reg => { this.regs[reg.name] = reg })
    }
  }
  shift() { this.ev.ctx.varStorage.shiftVars() }
  put(name, v) {
    this.regs[name].value = right(v)
    this.ev.ctx.varStorage.clearCaches()
  }
  // true: the specification admits the event and has moved to the next state
  accept(evv) {
    this.put('ev', evv)
    if (!this.val('accept').toBool()) {
      this.ev.ctx.varStorage.nextVars.forEach(r => { r.value = { isLeft: () => true, isRight: () => false } })
      return false
    }
    this.shift()
    return true
  }
}
class SpecError extends Error {}

const I = x => rv.mkInt(typeof x === 'bigint' ? x : BigInt(x))
const S = x => rv.mkStr(x)
const L = xs => rv.mkList(xs)
const R = o => rv.mkRecord(Object.entries(o))
const B = x => rv.mkBool(x)

// RuntimeValue -> plain JS (for messages and replay files)
function plain(v) { return ex(v.toQuintEx ? v.toQuintEx({ nextId: () => 0n }) : rv.toQuintEx(v)) }
function ex(e) {
  if (e.kind === 'int' || e.kind === 'bool' || e.kind === 'str') return typeof e.value === 'bigint' ? e.value.toString() : e.value
  if (e.opcode === 'Rec') { const o = {}; for (let i = 0; i < e.args.length; i += 2) o[e.args[i].value] = ex(e.args[i + 1]); return o }
  return e.args ? e.args.map(ex) : String(e.kind)
}
module.exports = { Spec, SpecError, I, S, L, R, B, rv, plain }
