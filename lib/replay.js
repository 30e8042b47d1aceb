'use strict'
const fs = require('fs')
const { execTraces } = require('./exec')
const { Validator } = require('./validate')
module.exports = function (file) {
  const v = JSON.parse(fs.readFileSync(file, 'utf8'))
  const cmds = v.events.map(({ st, r, rt, obs, sig, ...c }) => c)
  const evs = execTraces(v.machine, [cmds], v.env)[0]
  const bad = new Validator(v.spec || v.machine).trace(evs)
  for (const e of evs) console.log(JSON.stringify(e))
  if (bad) { console.log(bad.why, JSON.stringify(bad.wanted)); console.log(`VIOLATION property=${v.property} replay=${file}`); return 1 }
  console.log('admitted')
  return 0
}
