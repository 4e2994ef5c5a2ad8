"""Stand-ins for the packages that talk to the network or to a database server; installed before weatherlink is
imported, in the symbolic run and in the native replay alike."""
import sys
import types


class MySQLError(Exception):
    def __init__(self, msg=None, errno=None, values=None, sqlstate=None):
        Exception.__init__(self, msg, errno)
        self.msg = msg
        self.errno = errno
        self.sqlstate = sqlstate


class MySQLDatabaseError(MySQLError):
    pass


class MySQLOperationalError(MySQLDatabaseError):
    pass


class MySQLProgrammingError(MySQLDatabaseError):
    pass


class MySQLIntegrityError(MySQLDatabaseError):
    pass


class MySQLInternalError(MySQLDatabaseError):
    pass


class MySQLDataError(MySQLDatabaseError):
    pass


class MySQLNotSupportedError(MySQLDatabaseError):
    pass


class MySQLInterfaceError(MySQLError):
    pass


def _no_server(*args, **kwargs):
    raise AssertionError('the stand-in for mysql.connector has no server')


def _no_network(*args, **kwargs):
    raise AssertionError('the stand-in for requests has no network')


class Session(object):
    """requests.Session; `handler` answers (method, url, arguments)."""
    handler = None

    def __init__(self):
        self.closed = False
        self.params = {}
        self.headers = {}
        self.auth = None
        self.verify = True
        self.stream = False

    def request(self, method, url, **kwargs):
        if Session.handler is None:
            _no_network()
        return Session.handler(method, url, kwargs)

    def get(self, url, **kwargs):
        return self.request('GET', url, **kwargs)

    def post(self, url, **kwargs):
        return self.request('POST', url, **kwargs)

    def close(self):
        self.closed = True


def install():
    requests = types.ModuleType('requests')
    requests.get = lambda url, **kwargs: Session().request('GET', url, **kwargs)
    requests.post = lambda url, **kwargs: Session().request('POST', url, **kwargs)
    requests.Session = Session
    requests.session = Session

    class RequestException(IOError):
        pass

    class HTTPError(RequestException):
        pass
    exceptions = types.ModuleType('requests.exceptions')
    exceptions.RequestException = RequestException
    exceptions.HTTPError = HTTPError
    requests.exceptions = exceptions
    requests.RequestException = RequestException
    requests.HTTPError = HTTPError
    mysql = types.ModuleType('mysql')
    mysql.__path__ = []
    connector = types.ModuleType('mysql.connector')
    connector.__path__ = []
    errors = types.ModuleType('mysql.connector.errors')
    for m in (connector, errors):
        m.Error = MySQLError
        m.DatabaseError = MySQLDatabaseError
        m.OperationalError = MySQLOperationalError
        m.ProgrammingError = MySQLProgrammingError
        m.IntegrityError = MySQLIntegrityError
        m.InterfaceError = MySQLInterfaceError
        m.InternalError = MySQLInternalError
        m.DataError = MySQLDataError
        m.NotSupportedError = MySQLNotSupportedError
    connector.connect = _no_server
    connector.errors = errors
    mysql.connector = connector
    for m in (requests, exceptions, mysql, connector, errors):
        sys.modules[m.__name__] = m
