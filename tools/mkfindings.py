"""Writes known_findings.json."""
import json
FIXED = [
 ('14d5a2e', 'C04', 'Integer/Float/Complex.validate let OverflowError escape for inf and huge ints'),
 ('fd908b1', 'C04', 'Float/Complex inf and nan did not equal themselves, so valid values failed assert_valid and round trips'),
 ('227e016', 'C12', 'deserialize stored values for dynamic properties'),
 ('1d67089', 'C08', 'a failed in-place operator detached the stored observable container'),
 ('7923d77', 'C13', 'Integer.from_json truncated (and failed on large values)'),
 ('900e00b', 'C23', 'Array.deserialize converted every array to the first dtype'),
 ('350db42', 'C23', 'vector arrays modified the input list and rejected tuples of names'),
 ('fcf5d6d', 'C23', 'scaling a vector to its length modified the caller\'s array'),
 ('4854c5e', 'C03', 're-entering one listeners_disabled object left the listeners disabled'),
 ('20d350e', 'C21', 'Singleton.deserialize removed keys from the input dictionary'),
 ('19733d0', 'C20', 'HasUID.deserialize ignored assert_valid for instances with pointers'),
 ('864fc9b', 'C20', 'a failed or changed uid left a stale registry entry'),
 ('7a478f1', 'C22', 'report_status raised TypeError without progress'),
 ('83324bb', 'C26', 'URL.info returned None with remove_fragment or remove_parameters'),
 ('cdbb57c', 'C24', 'ImagePNG.to_json depended on the read position'),
 ('8d406b3', 'C06', 'the colour firebrick had a wrong value'),
 ('eec2661', 'C06', 'DateTime.to_json wrote years before 1000 in a form from_json rejects'),
 ('3e28d99', 'C11', 'dynamic properties were not serialized by their prop'),
 ('d38c0ea', 'C26', 'Integer/Float(min=None, max=1) raised TypeError'),
 ('7f2f6d8', 'C07', 'Tuple.validate raised TypeError for namedtuples'),
 ('1990aa7', 'C07', 'List/Tuple/Set with coerce raised TypeError for zero-dimensional arrays'),
 ('da539be', 'C07', 'unhashable validated elements of sets and keys of dictionaries raised TypeError instead of ValidationError'),
 ('09fe4b2', 'C14', 'plain properties raised ValueError when comparing arrays of different shapes or more than one dimension'),
 ('793cb2f', 'C14', 'an instance and its copy were unequal when a renamed property named an instance, a list of instances or a nan'),
 ('597d210', 'C16', 'properties and handlers of diamond hierarchies and of plain mixins did not follow the MRO'),
 ('2ae4f60', 'C20', 'HasUID.deserialize rejected a second reference to an instance that was already rebuilt'),
 ('3f1dfa4', 'C21', 'a Singleton.deserialize that failed (assert_valid, a bad name) left the instance registered'),
 ('2ade2c0', 'C21', 'Singletons without a name property could not be deserialized; a trusted deserialize renamed an instance registered in another registry'),
 ('499c26f', 'C23', 'arrays whose contents numpy refuses raised TypeError, OverflowError or AttributeError instead of ValidationError'),
 ('9e6a17a', 'C23', 'arrays without dimensions raised TypeError in to_json'),
 ('9d64e61', 'C14', 'Array.equal depended on the order of its arguments (relative tolerance of the second one)'),
 ('b6116fe', 'C23', 'vectors with nan or inf could not be deserialized from their JSON'),
 ('3e5d5d1', 'C24', 'File properties with mode wb+ rejected the files they opened (Python reports rb+), after truncating them'),
 ('9b96b55', 'C24', 'ImagePNG checked the signature at the read position: PNG files read before were rejected, garbage before a PNG accepted, EOFError for empty files'),
 ('1e444ed', 'C24', 'ImagePNG accepted its own result after it was closed'),
 ('a2e9f51', 'C06', 'Color accepted signs, spaces and non-ASCII digits in hex strings (+f+f+f, -0-0-0)'),
 ('4da43d4', 'C09', 'Dictionary.assert_valid ignored keys and values whose assert_valid returned False'),
 ('8abf4b6', 'C21', 'Singleton.deserialize replaced a serialized name that is empty by the identity'),
 ('2069476', 'C08', 'operators of observable containers with an operand they do not know (sets and views) raised a wrong TypeError instead of letting the operand answer'),
 ('250a6f3', 'C20', 'HasUID.deserialize registered an instance whose trusted class has a registry of its own in the registry of another class, and replaced one in use there'),
]
FINDINGS = []
json.dump(dict(fixed=['fixed: property=%s %s %s' % (p, c, w) for c, p, w in FIXED], findings=FINDINGS),
          open('known_findings.json', 'w'), indent=1)
