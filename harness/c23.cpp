// C23 JSON tokens and grammar.
#include "common.h"
#include "stream.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonTokenizer.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using namespace zserio;
using Tokenizer = BasicJsonTokenizer<>;
using Parser = BasicJsonParser<>;

namespace
{
bool sameDouble(double a, double b)
{
    uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    return x == y;
}

template <typename T>
bool sameText(const T& a, const T& b)
{
    if (a.size() != b.size())
        return false;
    return spec::same(reinterpret_cast<const uint8_t*>(a.data()), reinterpret_cast<const uint8_t*>(b.data()), a.size());
}

template <typename A>
bool sameValue(const A& a, const A& b)
{
    if (a.hasValue() != b.hasValue())
        return false;
    if (!a.hasValue())
        return true;
    if (a.template isType<std::nullptr_t>())
        return b.template isType<std::nullptr_t>();
    if (a.template isType<bool>())
        return b.template isType<bool>() && a.template get<bool>() == b.template get<bool>();
    if (a.template isType<uint64_t>())
        return b.template isType<uint64_t>() && a.template get<uint64_t>() == b.template get<uint64_t>();
    if (a.template isType<int64_t>())
        return b.template isType<int64_t>() && a.template get<int64_t>() == b.template get<int64_t>();
    if (a.template isType<double>())
        return b.template isType<double>() && sameDouble(a.template get<double>(), b.template get<double>());
    if (a.template isType<char>())
        return b.template isType<char>() && a.template get<char>() == b.template get<char>();
    return b.template isType<String>() && sameText(a.template get<String>(), b.template get<String>());
}

// both tokenizers go on in step until the end of the text or an error
void compare(Tokenizer& a, Tokenizer& b, size_t n)
{
    zs_assert(a.getToken() == b.getToken(), "first token");
    for (size_t i = 0; i < n + 2; ++i)
    {
        bool failedA = false, failedB = false;
        try
        {
            a.next();
        }
        catch (const JsonParserException&)
        {
            failedA = true;
        }
        try
        {
            b.next();
        }
        catch (const JsonParserException&)
        {
            failedB = true;
        }
        zs_assert(failedA == failedB, "both ways fail at the same token");
        zs_assert(a.getLine() == b.getLine() && a.getColumn() == b.getColumn(), "position of the token");
        if (failedA)
        {
            zs_reach("failed");
            return;
        }
        zs_assert(a.getToken() == b.getToken(), "token");
        zs_assert(sameValue(a.getValue(), b.getValue()), "value of the token");
        if (a.getToken() == JsonToken::END_OF_FILE)
        {
            zs_reach("end");
            return;
        }
    }
    zs_assert(false, "more tokens than characters");
}

// ---- lazily chosen tokens: each portion of the stream is the next token, the grammar is followed by a stack automaton
enum : char { OBJ, OBJ_END, ARR, ARR_END, COLON, COMMA, STRING, NUMBER, END, NUM_KINDS };

class Tokens : public std::streambuf
{
public:
    explicit Tokens(size_t max, size_t space) : m_max(max), m_space(space) {}

    bool failed = false; // the tokens so far cannot be accepted
    bool complete = true; // the tokens so far are a sequence of elements
    size_t numEvents = 0;
    uint8_t events[16];
    size_t numElements = 0;

protected:
    std::streamsize xsgetn(char* to, std::streamsize) override
    {
        if (m_ended)
            return 0;
        char kind = END;
        if (m_count < m_max)
        {
            // beyond the first error or in an obvious dead end there is nothing to distinguish
            if (failed)
                kind = static_cast<char>(END);
            else
                kind = static_cast<char>(zs_choose(0, NUM_KINDS - 1, "token"));
        }
        else if (!complete && !failed)
            zs_stop(); // too long
        ++m_count;
        if (!failed)
            follow(kind);
        std::streamsize n = 0;
        if (m_space == m_count)
            to[n++] = ' ';
        switch (kind)
        {
        case OBJ: to[n++] = '{'; break;
        case OBJ_END: to[n++] = '}'; break;
        case ARR: to[n++] = '['; break;
        case ARR_END: to[n++] = ']'; break;
        case COLON: to[n++] = ':'; break;
        case COMMA: to[n++] = ','; break;
        case STRING: to[n++] = '"'; to[n++] = 'k'; to[n++] = '"'; break;
        case NUMBER: to[n++] = '7'; to[n++] = ' '; break;
        default: m_ended = true; break;
        }
        return n;
    }

private:
    // what may come next
    enum State : uint8_t { ELEMENT, KEY_OR_END, KEY, SEPARATOR, MEMBER_END, ELEMENT_OR_END, ITEM_END };

    void event(char kind) { events[numEvents++] = static_cast<uint8_t>(kind); }
    void elementDone()
    {
        if (m_depth == 0)
        {
            complete = true;
            ++numElements;
        }
        else
            m_stack[m_depth] = m_stack[m_depth] == SEPARATOR ? MEMBER_END : ITEM_END;
    }
    void element(char kind)
    {
        event(kind);
        complete = false;
        // the place of the element in its container: SEPARATOR marks the value of a member
        if (kind == OBJ)
            m_stack[++m_depth] = KEY_OR_END;
        else if (kind == ARR)
            m_stack[++m_depth] = ELEMENT_OR_END;
        else
            elementDone();
    }
    void follow(char kind)
    {
        const bool starts = kind == OBJ || kind == ARR || kind == STRING || kind == NUMBER;
        const uint8_t state = m_stack[m_depth];
        if (kind == END)
        {
            failed = !complete;
            return;
        }
        if (m_depth == 0)
        {
            if (starts)
                element(kind);
            else
                failed = true;
            return;
        }
        if (m_afterColon)
        {
            m_afterColon = false;
            if (starts)
                element(kind);
            else
                failed = true;
            return;
        }
        switch (state)
        {
        case KEY_OR_END:
        case KEY:
            if (kind == STRING)
            {
                event(NUM_KINDS);
                m_stack[m_depth] = SEPARATOR;
            }
            else if (kind == OBJ_END && state == KEY_OR_END)
                close(kind);
            else
                failed = true;
            break;
        case SEPARATOR:
            if (kind == COLON)
                m_afterColon = true;
            else
                failed = true;
            break;
        case MEMBER_END:
            if (kind == COMMA)
                m_stack[m_depth] = KEY;
            else if (kind == OBJ_END)
                close(kind);
            else
                failed = true;
            break;
        case ELEMENT_OR_END:
        case ELEMENT:
            if (kind == ARR_END && state == ELEMENT_OR_END)
                close(kind);
            else if (starts)
                element(kind);
            else
                failed = true;
            break;
        default: // ITEM_END
            if (kind == COMMA)
                m_stack[m_depth] = ELEMENT;
            else if (kind == ARR_END)
                close(kind);
            else
                failed = true;
            break;
        }
    }
    void close(char kind)
    {
        event(kind);
        --m_depth;
        elementDone();
    }

    size_t m_max;
    size_t m_space;
    size_t m_count = 0;
    bool m_ended = false;
    bool m_afterColon = false;
    size_t m_depth = 0;
    uint8_t m_stack[16] = {};
};

class Observer : public Parser::IObserver
{
public:
    size_t numEvents = 0;
    uint8_t events[32];
    bool values = true;

    void beginObject() override { event(OBJ); }
    void endObject() override { event(OBJ_END); }
    void beginArray() override { event(ARR); }
    void endArray() override { event(ARR_END); }
    void visitKey(std::string_view key) override
    {
        event(NUM_KINDS);
        values = values && key == "k";
    }
    void visitValue(std::nullptr_t) override { values = false; }
    void visitValue(bool) override { values = false; }
    void visitValue(int64_t) override { values = false; }
    void visitValue(uint64_t v) override
    {
        event(NUMBER);
        values = values && v == 7;
    }
    void visitValue(double) override { values = false; }
    void visitValue(std::string_view v) override
    {
        event(STRING);
        values = values && v == "k";
    }

private:
    void event(char kind)
    {
        if (numEvents < sizeof events)
            events[numEvents++] = static_cast<uint8_t>(kind);
    }
};
} // namespace

// any text gives the same tokens however it arrives
ENTRY h_chunks()
{
    const size_t n = zs_param("length");
    uint8_t text[16];
    zs_bytes(text, n, "text");
    const size_t first = zs_param("first");
    const size_t second = zs_choose(first, n - 1, "second");
    const char* p = reinterpret_cast<const char*>(text);
    stream::In whole(p, n), split(p, n, first, second);
    std::istream wholeStream(&whole), splitStream(&split);
    Tokenizer a(wholeStream, std::allocator<uint8_t>());
    Tokenizer b(splitStream, std::allocator<uint8_t>());
    compare(a, b, n);
}

// longer literals which are cut anywhere, between other tokens
ENTRY h_cut()
{
    static const char* const texts[] = {"null", "true", "false", "NaN", "Infinity", "-Infinity", "-12", "3.5e+2", "\"a\\u0041b\"",
            "\r\n\r1", "\"\\\\\\\"\"", "\n \"x\"\t", "12345"};
    const char* middle = texts[zs_param("text")];
    char text[32];
    size_t n = 0;
    static const char around[] = " ,[\r\n7";
    const size_t before = zs_choose(0, sizeof(around) - 1, "before");
    if (before < sizeof(around) - 1)
        text[n++] = around[before];
    for (size_t i = 0; middle[i]; ++i)
        text[n++] = middle[i];
    const size_t behind = zs_choose(0, 2, "behind");
    for (size_t i = 0; i < behind; ++i)
        text[n++] = static_cast<char>(zs_u8("next"));
    const size_t first = zs_choose(1, n - 1, "first");
    const size_t second = zs_choose(first, n - 1, "second");
    stream::In whole(text, n), split(text, n, first, second);
    std::istream wholeStream(&whole), splitStream(&split);
    Tokenizer a(wholeStream, std::allocator<uint8_t>());
    Tokenizer b(splitStream, std::allocator<uint8_t>());
    compare(a, b, n);
}

// kinds, values and positions of tokens between any white space
ENTRY h_tokens()
{
    static const struct
    {
        const char* text;
        JsonToken token;
        int kind; // 0 white space, 1 new line, 2 character, 3 text, 4 number, 5 null, 6 bool
    } items[] = {{" ", JsonToken::UNKNOWN, 0}, {"\t", JsonToken::UNKNOWN, 0}, {"\n", JsonToken::UNKNOWN, 1},
            {"\r\n", JsonToken::UNKNOWN, 1}, {"\r", JsonToken::UNKNOWN, 1}, {"{", JsonToken::BEGIN_OBJECT, 2},
            {"}", JsonToken::END_OBJECT, 2}, {"[", JsonToken::BEGIN_ARRAY, 2}, {"]", JsonToken::END_ARRAY, 2},
            {":", JsonToken::KEY_SEPARATOR, 2}, {",", JsonToken::ITEM_SEPARATOR, 2}, {"\"ab\"", JsonToken::VALUE, 3},
            {"15", JsonToken::VALUE, 4}, {"null", JsonToken::VALUE, 5}, {"true", JsonToken::VALUE, 6}};
    constexpr size_t numItems = sizeof(items) / sizeof(items[0]);
    const size_t count = zs_param("items");
    char text[32];
    size_t n = 0;
    size_t chosen[8], lines[8], columns[8];
    size_t line = 1, column = 1;
    int last = 0;
    bool carriage = false;
    for (size_t i = 0; i < count; ++i)
    {
        chosen[i] = i == 0 ? zs_param("start") : zs_choose(0, numItems - 1, "item");
        const auto& item = items[chosen[i]];
        if (last == 4 && item.kind == 4)
            zs_stop(); // that would be one number
        last = item.kind;
        lines[i] = line;
        columns[i] = column;
        const size_t length = std::strlen(item.text);
        for (size_t k = 0; k < length; ++k)
            text[n++] = item.text[k];
        if (item.kind == 1)
        {
            // a line feed behind a carriage return is the same line end
            if (!(carriage && item.text[0] == '\n'))
                ++line;
            column = 1;
        }
        else
            column += length;
        carriage = item.text[0] == '\r' && item.text[1] == 0;
    }
    stream::In in(text, n);
    std::istream is(&in);
    Tokenizer tokenizer(is, std::allocator<uint8_t>());
    zs_assert(tokenizer.getToken() == JsonToken::BEGIN_OF_FILE, "the text is not empty");
    for (size_t i = 0; i < count; ++i)
    {
        const auto& item = items[chosen[i]];
        if (item.kind < 2)
            continue;
        const JsonToken token = tokenizer.next();
        zs_assert(token == item.token && tokenizer.getToken() == item.token, "kind of the token");
        zs_assert(tokenizer.getLine() == lines[i] && tokenizer.getColumn() == columns[i], "position of the token");
        const auto& value = tokenizer.getValue();
        switch (item.kind)
        {
        case 2:
            zs_assert(value.isType<char>() && value.get<char>() == item.text[0], "character of the token");
            break;
        case 3:
            zs_assert(value.isType<String>() && value.get<String>() == "ab", "text of the token");
            break;
        case 4:
            zs_assert(value.isType<uint64_t>() && value.get<uint64_t>() == 15, "number of the token");
            break;
        case 5: zs_assert(value.isType<std::nullptr_t>(), "null"); break;
        default: zs_assert(value.isType<bool>() && value.get<bool>(), "true"); break;
        }
    }
    zs_assert(tokenizer.next() == JsonToken::END_OF_FILE && !tokenizer.getValue().hasValue(), "end of the text");
    zs_assert(tokenizer.next() == JsonToken::END_OF_FILE, "the end stays the end");
    zs_reach("tokens");
}

// exactly the sequences of tokens which follow the grammar are accepted, with the events in order
ENTRY h_grammar()
{
    Tokens tokens(zs_param("tokens"), zs_param("space"));
    std::istream is(&tokens);
    Observer observer;
    Parser parser(is, observer);
    bool threw = false;
    size_t elements = 0;
    try
    {
        bool end = false;
        while (!end)
        {
            const size_t before = observer.numEvents;
            end = parser.parse();
            if (observer.numEvents > before)
                ++elements;
            else
                zs_assert(end, "an element has events");
        }
    }
    catch (const JsonParserException&)
    {
        threw = true;
    }
    zs_assert(threw == tokens.failed, "accepted exactly when the tokens follow the grammar");
    zs_assert(observer.values, "keys and values are those of the text");
    zs_assert(observer.numEvents == tokens.numEvents, "number of events");
    for (size_t i = 0; i < tokens.numEvents; ++i)
        zs_assert(observer.events[i] == tokens.events[i], "the events are in order");
    if (!threw)
    {
        zs_assert(elements == tokens.numElements, "one element at a time");
        zs_reach("accepted");
    }
    else
        zs_reach("rejected");
}

namespace
{
class Resource : public std::pmr::memory_resource
{
public:
    size_t live = 0;

private:
    void* do_allocate(size_t n, size_t) override
    {
        ++live;
        return ::operator new(n);
    }
    void do_deallocate(void* p, size_t, size_t) override
    {
        --live;
        ::operator delete(p);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

class Refusing : public std::pmr::memory_resource
{
    void* do_allocate(size_t, size_t) override
    {
        zs_assert(false, "memory is taken from somewhere else");
        throw std::bad_alloc();
    }
    void do_deallocate(void*, size_t, size_t) override { zs_assert(false, "memory is returned to somewhere else"); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

template <typename A>
void memory()
{
    static const char text[] = "[\"a text which needs memory of its own\", 12 , \"another text which needs memory of its own\\n\"]";
    constexpr size_t n = sizeof(text) - 1;
    Resource resource;
    Refusing refusing;
    std::pmr::memory_resource* old = std::pmr::set_default_resource(&refusing);
    {
        const size_t first = zs_choose(1, n, "first");
        const size_t second = first + 20 < n ? first + 20 : n;
        stream::In in(text, n, first, second);
        std::istream is(&in);
        BasicJsonTokenizer<A> tokenizer(is, A(&resource));
        size_t tokens = 0;
        while (tokenizer.next() != JsonToken::END_OF_FILE)
            ++tokens;
        zs_assert(tokens == 7, "number of tokens");
    }
    std::pmr::set_default_resource(old);
    zs_assert(resource.live == 0, "all memory is returned");
    zs_reach("done");
}
} // namespace

// all memory comes from the given resource, also when the text arrives in portions
ENTRY h_memory()
{
    if (zs_param("propagating"))
        memory<ppmr::PropagatingPolymorphicAllocator<uint8_t>>();
    else
        memory<std::pmr::polymorphic_allocator<uint8_t>>();
}
