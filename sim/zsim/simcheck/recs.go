package main

import (
	"encoding/json"
	"strconv"
	"strings"

	apipb "github.com/bazelbuild/buildtools/api_proto"
	"google.golang.org/protobuf/proto"
)

// jsonRecords splits buildozer's JSON output.
func jsonRecords(out string) ([]string, string) {
	var o struct {
		Records []json.RawMessage `json:"records"`
	}
	if err := json.Unmarshal([]byte(out), &o); err != nil {
		return nil, err.Error()
	}
	var rs []string
	for _, r := range o.Records {
		rs = append(rs, string(r))
	}
	return rs, ""
}

// protoRecords splits buildozer's protobuf output.
func protoRecords(out string) ([]string, string) {
	var o apipb.Output
	if err := proto.Unmarshal([]byte(out), &o); err != nil {
		return nil, err.Error()
	}
	var rs []string
	for _, r := range o.Records {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(r)
		if err != nil {
			return nil, err.Error()
		}
		rs = append(rs, string(b))
	}
	return rs, ""
}

// rendered is what the text output of buildozer says for its JSON output.
func rendered(out string) ([]string, bool) {
	var o struct {
		Records []struct {
			Fields []struct {
				Text   *string `json:"text"`
				Number *int    `json:"number"`
				Error  *string `json:"error"`
				List   *struct {
					Strings []string `json:"strings"`
				} `json:"list"`
				Quote bool `json:"quoteWhenPrinting"`
			} `json:"fields"`
		} `json:"records"`
	}
	if json.Unmarshal([]byte(out), &o) != nil {
		return nil, false
	}
	var all string
	for _, r := range o.Records {
		var fs []string
		for _, f := range r.Fields {
			switch {
			case f.Text != nil && f.Quote && strings.Contains(*f.Text, " "):
				fs = append(fs, strconv.Quote(*f.Text))
			case f.Text != nil:
				fs = append(fs, *f.Text)
			case f.Number != nil:
				fs = append(fs, strconv.Itoa(*f.Number))
			case f.List != nil:
				fs = append(fs, "["+strings.Join(f.List.Strings, " ")+"]")
			case f.Error != nil:
				fs = append(fs, "("+strings.ToLower(*f.Error)+")")
			default:
				return nil, false
			}
		}
		all += strings.Join(fs, " ") + "\n"
	}
	return lines(all), true
}

// renderedProto is the same for its protobuf output.
func renderedProto(out string) ([]string, bool) {
	var o apipb.Output
	if proto.Unmarshal([]byte(out), &o) != nil {
		return nil, false
	}
	var all string
	for _, r := range o.Records {
		var fs []string
		for _, f := range r.Fields {
			switch v := f.Value.(type) {
			case *apipb.Output_Record_Field_Text:
				if f.QuoteWhenPrinting && strings.Contains(v.Text, " ") {
					fs = append(fs, strconv.Quote(v.Text))
				} else {
					fs = append(fs, v.Text)
				}
			case *apipb.Output_Record_Field_Number:
				fs = append(fs, strconv.Itoa(int(v.Number)))
			case *apipb.Output_Record_Field_List:
				fs = append(fs, "["+strings.Join(v.List.Strings, " ")+"]")
			case *apipb.Output_Record_Field_Error:
				fs = append(fs, "("+strings.ToLower(v.Error.String())+")")
			default:
				return nil, false
			}
		}
		all += strings.Join(fs, " ") + "\n"
	}
	return lines(all), true
}
