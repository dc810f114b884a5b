// Scripted stand-in for vscode-languageclient/node.
const host = (globalThis.__host ??= {});
class LanguageClient {
  constructor(id, name, serverOptions, clientOptions) {
    this.n = host.clients.length;
    host.clients.push({ serverOptions, clientOptions });
    host.event(this.n, "new");
  }
  async start() {
    host.event(this.n, "start");
    await host.pause();
    if (host.failStart()) { host.event(this.n, "start failed"); throw new Error("start"); }
    host.event(this.n, "started");
  }
  async stop() {
    host.event(this.n, "stop");
    await host.pause();
    if (host.failStop()) { host.event(this.n, "stop failed"); throw new Error("stop"); }
    host.event(this.n, "stopped");
  }
  onNotification() { return { dispose() {} }; }
  async dispose() {}
}
class NotificationType { constructor(m) { this.method = m; } }
class RequestType { constructor(m) { this.method = m; } }
class ResponseError extends Error {}
module.exports = { LanguageClient, NotificationType, RequestType, ResponseError };
