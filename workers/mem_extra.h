// JSON, reflection and service data with the simulated memory.
#pragma once
#include "worker_extra.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/IService.h"
#include "zserio/ReflectableUtil.h"

namespace glue
{
struct Mem
{
    std::function<std::string(Box*, int)> jout;
    std::function<std::unique_ptr<Box>(const std::string&)> jin;
    std::function<std::string(Box*, const std::string&)> find;
    std::function<std::string(Box*, const std::string&)> store;
    std::function<std::string(Box*, char)> message;
};
std::map<std::string, Mem>& mems();
void memRegister();
void disarm();

template <class T>
std::string toJson(T& o, int n)
{
    Window w;
    const auto s = zserio::toJsonString(o, static_cast<uint8_t>(n), al());
    Pause p;
    return hexOf(s);
}

template <class T>
std::unique_ptr<Box> fromJson(const std::string& text)
{
    const zserio::string<zserio::RebindAlloc<Alloc, char>> s(text.data(), text.size(), al());
    Window w;
    T o = zserio::fromJsonString<T>(s, al());
    Pause p;
    return std::unique_ptr<Box>(new BoxT<T>(std::move(o)));
}

// the value reached over reflection, as text
template <class T>
std::string find(T& o, const std::string& path)
{
    Window w;
    const auto r = o.reflectable(al());
    const auto f = path == "-" ? r : r->find(zserio::StringView(path.data(), path.size()));
    std::string res;
    if (!f)
        return "none";
    const auto any = f->getAnyValue(al());
    {
        Pause p;
        res = std::to_string(any.hasValue());
    }
    if (f->isArray())
    {
        const auto n = f->size();
        Pause p;
        return res + "[" + std::to_string(n);
    }
    const auto& ti = f->getTypeInfo();
    if (zserio::TypeInfoUtil::isCompound(ti.getSchemaType()))
    {
        const auto n = f->bitSizeOf();
        Pause p;
        return res + "{" + std::to_string(n);
    }
    if (ti.getSchemaType() == zserio::SchemaType::BYTES || ti.getSchemaType() == zserio::SchemaType::EXTERN)
        return res;
    const auto s = f->toString(al());
    Pause p;
    return res + "=" + hexOf(s);
}

// stores a field's own value again over reflection; the object must stay the same
template <class T>
std::string store(T& o, const std::string& path)
{
    Window w;
    const auto r = o.reflectable(al());
    const zserio::StringView v(path.data(), path.size());
    const auto f = r->getField(v);
    if (!f || f->isArray())
        return "none";
    const auto any = f->getAnyValue(al());
    {
        const auto& ti = f->getTypeInfo();
        if (zserio::TypeInfoUtil::isCompound(ti.getSchemaType()) ||
                ti.getSchemaType() == zserio::SchemaType::BYTES || ti.getSchemaType() == zserio::SchemaType::EXTERN)
            return "none"; // held by reference
    }
    r->setField(v, any);
    return "set";
}

template <class D>
std::string twice(const D& d)
{
    std::string first;
    try
    {
        const auto s = d.getData();
        Pause p;
        return hexOf(s);
    }
    catch (const std::exception& e)
    {
        Pause p;
        first = e.what();
        disarm();
    }
    try
    {
        const auto s = d.getData();
        Pause p;
        return "retried " + hexOf(s);
    }
    catch (const std::exception& e)
    {
        Pause p;
        return "error " + std::string(first == e.what() ? "same" : "other");
    }
}

template <class T>
std::string message(T& o, char mode)
{
    Window w;
    if (mode == 'o')
    {
        const zserio::BasicObjectServiceData<Alloc> d(o, al());
        return twice(d);
    }
    const zserio::BasicReflectableServiceData<Alloc> d(o.reflectable(al()), al());
    return twice(d);
}
} // namespace glue
