"""A VEN on a wire that the harness holds the other end of."""
from openleadr import messaging
from openleadr.client import OpenADRClient

BASE = 'http://vtn/OpenADR2/Simple/2.0b'


class Reply:
    def __init__(self, text, status=200):
        self.text = text
        self.status = status

    async def read(self):
        return self.text.encode('utf-8') if isinstance(self.text, str) or hasattr(self.text, 'encode') else self.text

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        return False


class Wire:
    """Takes the place of the HTTP session of a client. answer(service, text) -> text, (status, text) or Reply, or raises"""
    def __init__(self, answer=None):
        self.sent = []
        self.answer = answer
        self.closed = False

    def post(self, url, data=None, **kw):
        service = url.split('/')[-1]
        self.sent.append((service, data))
        out = self.answer(service, data) if self.answer else ''
        if isinstance(out, Reply):
            return out
        if isinstance(out, tuple):
            return Reply(out[1], out[0])
        return Reply(out)

    async def close(self):
        self.closed = True

    def messages(self, valid=True):
        """what was sent: list of (service, type, payload); each message is checked against the schema"""
        out = []
        for service, text in self.sent:
            if valid:
                messaging.validate_xml_schema(text)
            out.append((service, *messaging.parse_message(text)))
        return out


def ven(answer=None, **kw):
    """-> (client, wire)"""
    client = OpenADRClient(ven_name=kw.pop('ven_name', 'v'), vtn_url=BASE, **kw)
    wire = Wire(answer)
    client.client_session = wire
    return client, wire
