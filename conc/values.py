"""Typed values for the concrete harness."""
from datetime import datetime, timedelta, timezone
from ndg.xacml.core.attributevalue import AttributeValueClassFactory

V1 = 'urn:oasis:names:tc:xacml:1.0:function:'
V2 = 'urn:oasis:names:tc:xacml:2.0:function:'
XS = 'http://www.w3.org/2001/XMLSchema#'
URI = {
    'string': XS + 'string', 'anyURI': XS + 'anyURI',
    'integer': XS + 'integer', 'boolean': XS + 'boolean',
    'double': XS + 'double', 'date': XS + 'date',
    'dateTime': XS + 'dateTime', 'time': XS + 'time',
    'dayTimeDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-'
                       '20020816#dayTimeDuration',
    'yearMonthDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-'
                         '20020816#yearMonthDuration',
    'x500Name': 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
    'rfc822Name': 'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name',
    'hexBinary': XS + 'hexBinary',
    'ipAddress': 'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
    'dnsName': 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName',
}
EQUAL = ('string', 'boolean', 'integer', 'double', 'date', 'time', 'dateTime',
         'dayTimeDuration', 'yearMonthDuration', 'anyURI', 'x500Name',
         'rfc822Name', 'hexBinary')
F = AttributeValueClassFactory()
T0 = datetime(2010, 3, 31, 12, 0, 0)
NATIVE = {'integer': int, 'hexBinary': int, 'boolean': bool, 'double': float,
          'date': datetime, 'dateTime': datetime, 'time': datetime,
          'dayTimeDuration': timedelta, 'yearMonthDuration': timedelta}


SPECIAL = (100, 101, 102, 103)      # 103: not equal to itself, for doubles
_ODD = {
    int: (1 << 61, 4, 10 ** 20, -1),
    float: (0.0, -0.0, float('inf'), float('nan')),
    datetime: (datetime(2010, 3, 31, 12, tzinfo=timezone.utc),
               datetime(2010, 3, 31, 13, tzinfo=timezone(timedelta(hours=1))),
               datetime(2010, 3, 31, 12, tzinfo=timezone(timedelta(hours=1))),
               datetime(2010, 3, 31, 12, microsecond=1)),
    timedelta: (timedelta(1), timedelta(hours=24), -timedelta(1),
                timedelta(microseconds=1)),
}


def native(ty, k):
    """the k-th content of a type; k an int or a text; equal k, equal content
    except for the double number 103"""
    t = NATIVE.get(ty, str)
    if k in SPECIAL and t in _ODD:
        return _ODD[t][SPECIAL.index(k)]
    if t is str:
        return k if isinstance(k, str) else [
            '', 'a', 'A', ' a', 'a ', 'b', 'ab', '1', 'x@y.org', 'x@Y.org',
            'CN=a, O=b', 'cn=A,o=b', '*', 'a*'][k % 14]
    n = sum(map(ord, k)) if isinstance(k, str) else k
    if t is bool:
        return n % 2 == 1
    if t is int:
        return n - 3
    if t is float:
        return (n - 3) / 4.0
    if t is datetime:
        return T0 + timedelta(seconds=n * 7201)
    return timedelta(seconds=n * 86399)


def value(spec):
    """['string', 3] -> a value; {'raw': x} -> x; None -> None"""
    if isinstance(spec, dict):
        return spec['raw']
    ty, k = spec
    return F(URI[ty])(value=native(ty, k))
