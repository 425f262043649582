import tornado.websocket


class JsonRpcWebSocketHandler(tornado.websocket.WebSocketHandler):
    def initialize(self, service_factory=None, report_defer_period=None):
        self.service_factory = service_factory
