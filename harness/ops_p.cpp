// Shows the known findings (see KNOWN_FINDINGS); a probe returns an empty text once its finding is gone.
#include "types/p.h"
#include "gen/p.h"

#include "core.h"

#include "json/reflector-chronoutilities.h"

#include <sstream>

namespace {
using namespace ReflectiveRapidJSON;
using std::string;
using std::to_string;

template <BinaryVersion V = 0, class T> string bytes(const T &value, BinaryVersion version = 0)
{
    std::ostringstream os;
    os.exceptions(std::ios::failbit | std::ios::badbit);
    static_cast<const BinarySerializable<T, V> &>(value).toBinary(os, version);
    return os.str();
}

template <BinaryVersion V = 0, class T> void restore(T &value, const string &data)
{
    std::istringstream is(data);
    is.exceptions(std::ios::failbit | std::ios::badbit);
    static_cast<BinarySerializable<T, V> &>(value).restoreFromBinary(is);
}

string includedBaseJson()
{
    probes::Derived d;
    d.included = 77;
    const auto text = static_cast<JsonSerializable<probes::Derived> &>(d).toJson();
    const auto r = JsonSerializable<probes::Derived>::fromJson(text.GetString(), text.GetSize());
    return r.included == 77 ? string() : "member of a base class from another header: 77 becomes " + to_string(r.included);
}

string includedBaseBinary()
{
    probes::Derived d, r;
    d.included = 77;
    restore(r, bytes(d));
    return r.included == 77 ? string() : "member of a base class from another header: 77 becomes " + to_string(r.included);
}

string versionInContainers()
{
    // written at version 1 a member as of version 2 is neither written nor restored - directly or in a container
    probes::Holder h, r;
    h.direct.p2 = 99;
    h.list.resize(1);
    h.list[0].p2 = 99;
    restore<3>(r, bytes<3>(h, 3));
    if (r.direct.p2 != 99)
        return string();
    return r.list.size() == 1 && r.list[0].p2 == 99
        ? string()
        : "written and restored at version 3: the member as of version 2 is dropped in a vector";
}

string versionOfBase()
{
    probes::Heir h, r;
    h.base2 = 99;
    try {
        restore<3>(r, bytes<3>(h, 3));
    } catch (const std::exception &e) {
        return string("written at version 3, a record cannot be restored if a base class without version has a member as of version 2: ") + e.what();
    }
    return r.base2 == 99 && r.heir == 1 ? string() : "written and restored at version 3: a base class without version is restored with other values";
}

string aliasedPointers()
{
    probes::Aliased a, r;
    a.owner = std::make_shared<probes::Owner>();
    a.owner->member.value = 55;
    a.member = std::shared_ptr<probes::Member>(a.owner, &a.owner->member);
    const auto data = bytes(a);
    try {
        restore(r, data);
        return r.member && r.member->value == 55 ? string() : "the pointer to a member is restored with another value";
    } catch (const CppUtilities::ConversionException &e) {
        return string("data written from pointers of different types to one address is refused: ") + e.what();
    }
}

string directPull()
{
    RAPIDJSON_NAMESPACE::Document doc;
    doc.Parse("{\"inner\":{\"number\":\"x\"},\"number\":1}");
    JsonDeserializationErrors errors;
    errors.throwOn = JsonDeserializationErrors::ThrowOn::All;
    probes::Outer o;
    const auto &object = static_cast<const RAPIDJSON_NAMESPACE::Document &>(doc).GetObject();
    try {
        JsonReflector::pull(o, object, &errors);
    } catch (const JsonDeserializationError &) {
    }
    return *errors.currentRecord ? string("the context still names the record ") + errors.currentRecord + " after a thrown error" : string();
}

string dateLocale()
{
    sim::g_rawDates = true;
    sim::setForeignLocale(true);
    const auto date = CppUtilities::DateTime::fromDateAndTime(2015, 1, 2, 3, 4, 5);
    RAPIDJSON_NAMESPACE::Document doc;
    JsonReflector::push(date, doc, doc.GetAllocator());
    sim::setForeignLocale(false);
    return doc.GetString() == string("2015-01-02T03:04:05") ? string() : string("a date is saved as ") + doc.GetString();
}
// crashes while it fails
string dateOffset()
{
    sim::g_rawDates = true;
    RAPIDJSON_NAMESPACE::Document doc;
    doc.SetString("2015-01-01T00:00:00+01:00:00:00", doc.GetAllocator());
    JsonDeserializationErrors errors;
    CppUtilities::DateTime date;
    JsonReflector::pull(date, doc, &errors);
    return errors.size() == 1 ? string() : string("accepted");
}

sim::RegisterProbe r1("C02", "included-base", includedBaseJson);
sim::RegisterProbe r2("C01", "included-base", includedBaseBinary);
sim::RegisterProbe r3("C09", "version-in-containers", versionInContainers);
sim::RegisterProbe r4("C09", "unversioned-base", versionOfBase);
sim::RegisterProbe r5("C08", "aliased-pointers", aliasedPointers);
sim::RegisterProbe r8("C02", "date-locale", dateLocale);
sim::RegisterProbe r7("C05", "date-offset", dateOffset);
sim::RegisterProbe r6("C13", "direct-pull-context", directPull);
} // namespace
