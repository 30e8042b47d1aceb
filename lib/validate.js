'use strict'
const path = require('path')
const { Spec, SpecError, I, S, L, R, plain } = require('./spec')

const big = x => typeof x === 'bigint' ? x : typeof x === 'number' ? BigInt(x) : (x.startsWith('-x') ? -BigInt('0' + x.slice(1)) : x.startsWith('x') ? BigInt('0' + x) : BigInt(x))
function bytesOfHex(h) { const r = []; for (let i = 0; i < h.length; i += 2) r.push(parseInt(h.slice(i, i + 2), 16)); return r }
const ints = xs => L((xs || []).map(x => I(big(x))))

function evValue(e) {
  return R({
    op: S(e.op), f: S(e.f || ''), d: I(e.d || 0), a: I(e.a || 0), b: I(e.b || 0), c: I(e.c || 0),
    k: I(big(e.k || 0)), n: I(big(e.n || 0)), m: I(big(e.m || 0)),
    t: ints(e.t), s: ints(e.s), g: ints(e.g),
    st: S(e.st), r: ints(e.r), rt: ints(bytesOfHex(e.rt)),
    obs: L(e.obs.map(o => ints(o))),
  })
}

class Validator {
  constructor(machine) {
    this.spec = new Spec(path.join(__dirname, '..', 'spec', machine + '.qnt'), machine)
    this.spec.init()
  }
  // returns null when every event is admitted, otherwise {index, why}
  trace(evs, onEvent) {
    this.spec.init()
    for (let i = 0; i < evs.length; i++) {
      const e = evs[i]
      if (e.st === 'hang' || e.st === 'crash') return { index: i, why: e.st }
      let ok
      try { ok = this.spec.accept(evValue(e)) } catch (x) { if (!(x instanceof SpecError || x instanceof RangeError)) throw x; return { index: i, why: x.message.slice(0, 300) } }
      if (!ok) {
        let w
        try { w = plain(this.spec.val('wanted')) } catch (x) { w = String(x) }
        return { index: i, why: 'the specification does not admit this event', wanted: w }
      }
      if (onEvent) onEvent(e)
      if (e.st === 'panic' && e.op.startsWith('a')) return null // op-assign after a panic: no further claim
    }
    return null
  }
}
module.exports = { Validator, evValue, big, SpecError }
