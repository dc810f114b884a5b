// which@4: first executable of that name on the PATH.
const host = (globalThis.__host ??= {});
const which = async (name, opt = {}) => {
  host.which(name);
  const r = host.onPath[name];
  if (!r && !opt.nothrow) throw new Error("not found: " + name);
  return r ?? null;
};
which.sync = (name, opt = {}) => { host.which(name); const r = host.onPath[name]; if (!r && !opt.nothrow) throw new Error("not found"); return r ?? null; };
module.exports = which;
module.exports.default = which;
