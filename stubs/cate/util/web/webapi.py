import tornado.web


def url_pattern(pattern):
    return pattern


class WebAPIRequestHandler(tornado.web.RequestHandler):
    def write_status_ok(self, content=None):
        self.write({'status': 'ok', 'content': content})


class WebAPIExitHandler(WebAPIRequestHandler):
    pass


def run_main(*args, **kwargs):
    raise NotImplementedError
