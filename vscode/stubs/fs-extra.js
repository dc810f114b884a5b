const fs = require("fs");
module.exports = { ...fs, pathExists: async (p) => fs.existsSync(p), pathExistsSync: (p) => fs.existsSync(p) };
